From c6d1f98e701817ae4500ebd1598b7212cf82ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 01/95] fix: redo of structural edits brings the original
 entity ids back

Re-executing an edit on redo allocated fresh ids (the id counter is never
rewound), so a later command on the redo stack that referred to the table,
cell, list or block by id failed with 'not found' or acted on nothing.
undo() now keeps the state it leaves and redo() restores it.
---
 .../src/use_cases/create_list_uc.rs            | 17 +++++++++--------
 .../src/use_cases/delete_text_uc.rs            | 14 +++++++++-----
 .../src/use_cases/insert_block_uc.rs           | 17 +++++++++--------
 .../src/use_cases/insert_fragment_uc.rs        | 17 +++++++++--------
 .../src/use_cases/insert_frame_uc.rs           | 17 +++++++++--------
 .../use_cases/insert_html_at_position_uc.rs    | 17 +++++++++--------
 .../src/use_cases/insert_list_uc.rs            | 17 +++++++++--------
 .../insert_markdown_at_position_uc.rs          | 17 +++++++++--------
 .../src/use_cases/insert_table_column_uc.rs    | 18 ++++++++++--------
 .../src/use_cases/insert_table_row_uc.rs       | 18 ++++++++++--------
 .../src/use_cases/insert_table_uc.rs           | 17 +++++++++--------
 .../src/use_cases/split_table_cell_uc.rs       | 18 ++++++++++--------
 12 files changed, 111 insertions(+), 93 deletions(-)

diff --git a/crates/document_editing/src/use_cases/create_list_uc.rs b/crates/document_editing/src/use_cases/create_list_uc.rs
index 53f7842..c2bf406 100644
--- a/crates/document_editing/src/use_cases/create_list_uc.rs
+++ b/crates/document_editing/src/use_cases/create_list_uc.rs
@@ -36,7 +36,7 @@ pub trait CreateListUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct CreateListUseCase {
     uow_factory: Box<dyn CreateListUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<CreateListDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 /// Convert from crate's ListStyle to common::entities::ListStyle
@@ -132,7 +132,7 @@ impl CreateListUseCase {
         CreateListUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -142,7 +142,6 @@ impl CreateListUseCase {
 
         let (result, snapshot) = execute_create_list(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -159,22 +158,24 @@ impl UndoRedoCommand for CreateListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_create_list(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 57fa641..400750c 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -54,6 +54,7 @@ pub trait DeleteTextUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct DeleteTextUseCase {
     uow_factory: Box<dyn DeleteTextUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
     last_dto: Option<DeleteTextDto>,
     last_result: Option<DeleteTextResultDto>,
     last_merge_time: Option<Instant>,
@@ -916,6 +917,7 @@ impl DeleteTextUseCase {
         DeleteTextUseCase {
             uow_factory,
             undo_snapshot: None,
+            redo_snapshot: None,
             last_dto: None,
             last_result: None,
             last_merge_time: None,
@@ -949,22 +951,24 @@ impl UndoRedoCommand for DeleteTextUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_delete(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index a5c0266..3d62a1e 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -45,7 +45,7 @@ pub trait InsertBlockUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertBlockUseCase {
     uow_factory: Box<dyn InsertBlockUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertBlockDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_block(
@@ -267,7 +267,7 @@ impl InsertBlockUseCase {
         InsertBlockUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -277,7 +277,6 @@ impl InsertBlockUseCase {
 
         let (result, snapshot) = execute_insert_block(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -294,22 +293,24 @@ impl UndoRedoCommand for InsertBlockUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_block(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index c2d7ec0..17e1118 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -2458,7 +2458,7 @@ fn execute_insert_fragment(
 pub struct InsertFragmentUseCase {
     uow_factory: Box<dyn InsertFragmentUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertFragmentDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 impl InsertFragmentUseCase {
@@ -2466,7 +2466,7 @@ impl InsertFragmentUseCase {
         InsertFragmentUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -2476,7 +2476,6 @@ impl InsertFragmentUseCase {
 
         let (result, snapshot) = execute_insert_fragment(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -2493,22 +2492,24 @@ impl UndoRedoCommand for InsertFragmentUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_fragment(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 26ef850..cfa8c59 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -35,7 +35,7 @@ pub trait InsertFrameUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertFrameUseCase {
     uow_factory: Box<dyn InsertFrameUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertFrameDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 /// Find which frame contains the given document position by walking
@@ -213,7 +213,7 @@ impl InsertFrameUseCase {
         InsertFrameUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -223,7 +223,6 @@ impl InsertFrameUseCase {
 
         let (result, snapshot) = execute_insert_frame(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -240,22 +239,24 @@ impl UndoRedoCommand for InsertFrameUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_frame(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
index ec4c598..1d08731 100644
--- a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
@@ -940,7 +940,7 @@ fn execute_insert_html(
 pub struct InsertHtmlAtPositionUseCase {
     uow_factory: Box<dyn InsertHtmlAtPositionUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertHtmlAtPositionDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 impl InsertHtmlAtPositionUseCase {
@@ -948,7 +948,7 @@ impl InsertHtmlAtPositionUseCase {
         InsertHtmlAtPositionUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -961,7 +961,6 @@ impl InsertHtmlAtPositionUseCase {
 
         let (result, snapshot) = execute_insert_html(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -978,22 +977,24 @@ impl UndoRedoCommand for InsertHtmlAtPositionUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_html(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 5a7d74d..11b5eca 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -39,7 +39,7 @@ pub trait InsertListUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct InsertListUseCase {
     uow_factory: Box<dyn InsertListUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertListDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 /// Convert from crate's ListStyle to common::entities::ListStyle
@@ -178,7 +178,7 @@ impl InsertListUseCase {
         InsertListUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -188,7 +188,6 @@ impl InsertListUseCase {
 
         let (result, snapshot) = execute_insert_list(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -205,22 +204,24 @@ impl UndoRedoCommand for InsertListUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_list(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
index 7590d02..2463fac 100644
--- a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
@@ -655,7 +655,7 @@ fn execute_insert_markdown(
 pub struct InsertMarkdownAtPositionUseCase {
     uow_factory: Box<dyn InsertMarkdownAtPositionUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertMarkdownAtPositionDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 impl InsertMarkdownAtPositionUseCase {
@@ -663,7 +663,7 @@ impl InsertMarkdownAtPositionUseCase {
         InsertMarkdownAtPositionUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -676,7 +676,6 @@ impl InsertMarkdownAtPositionUseCase {
 
         let (result, snapshot) = execute_insert_markdown(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -693,22 +692,24 @@ impl UndoRedoCommand for InsertMarkdownAtPositionUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_markdown(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index dc92612..adcac29 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -48,7 +48,7 @@ impl_cell_block_reader!(dyn InsertTableColumnUnitOfWorkTrait);
 pub struct InsertTableColumnUseCase {
     uow_factory: Box<dyn InsertTableColumnUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertTableColumnDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_table_column(
@@ -226,7 +226,7 @@ impl InsertTableColumnUseCase {
         InsertTableColumnUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -235,7 +235,6 @@ impl InsertTableColumnUseCase {
         uow.begin_transaction()?;
         let (result, snapshot) = execute_insert_table_column(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
         uow.commit()?;
         Ok(result)
     }
@@ -250,21 +249,24 @@ impl UndoRedoCommand for InsertTableColumnUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
+
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_table_column(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 88a858c..36e3662 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -48,7 +48,7 @@ impl_cell_block_reader!(dyn InsertTableRowUnitOfWorkTrait);
 pub struct InsertTableRowUseCase {
     uow_factory: Box<dyn InsertTableRowUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertTableRowDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_table_row(
@@ -224,7 +224,7 @@ impl InsertTableRowUseCase {
         InsertTableRowUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -233,7 +233,6 @@ impl InsertTableRowUseCase {
         uow.begin_transaction()?;
         let (result, snapshot) = execute_insert_table_row(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
         uow.commit()?;
         Ok(result)
     }
@@ -248,21 +247,24 @@ impl UndoRedoCommand for InsertTableRowUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
+
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_table_row(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 7c93ca3..52c38e4 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -47,7 +47,7 @@ impl_cell_frame_creator!(dyn InsertTableUnitOfWorkTrait);
 pub struct InsertTableUseCase {
     uow_factory: Box<dyn InsertTableUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<InsertTableDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_insert_table(
@@ -536,7 +536,7 @@ impl InsertTableUseCase {
         InsertTableUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -546,7 +546,6 @@ impl InsertTableUseCase {
 
         let (result, snapshot) = execute_insert_table(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(result)
@@ -563,22 +562,24 @@ impl UndoRedoCommand for InsertTableUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_insert_table(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/split_table_cell_uc.rs b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
index e13859a..0e0f249 100644
--- a/crates/document_editing/src/use_cases/split_table_cell_uc.rs
+++ b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
@@ -48,7 +48,7 @@ impl_cell_block_reader!(dyn SplitTableCellUnitOfWorkTrait);
 pub struct SplitTableCellUseCase {
     uow_factory: Box<dyn SplitTableCellUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<SplitTableCellDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_split_table_cell(
@@ -271,7 +271,7 @@ impl SplitTableCellUseCase {
         SplitTableCellUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -280,7 +280,6 @@ impl SplitTableCellUseCase {
         uow.begin_transaction()?;
         let (result, snapshot) = execute_split_table_cell(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
         uow.commit()?;
         Ok(result)
     }
@@ -295,21 +294,24 @@ impl UndoRedoCommand for SplitTableCellUseCase {
             .clone();
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing would allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
+
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let (_, snapshot) = execute_split_table_cell(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
-- 
2.43.0


From bdb9092b4521a60e3054352a34a3c7a1b524b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 02/95] fix: inserting an empty formatted text no longer stores
 a zero-length format run

---
 .../src/use_cases/insert_formatted_text_uc.rs | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 0821eff..063111a 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -179,16 +179,19 @@ fn insert_formatted_at(
         let mut runs_map = store.format_runs.write().unwrap();
         let runs = runs_map.entry(block.id).or_default();
         shift_runs_for_insert(runs, byte_offset, inserted_byte_len);
-        let new_run = FormatRun {
-            byte_start: byte_offset,
-            byte_end: byte_offset + inserted_byte_len,
-            format: dto_to_character_format(dto),
-        };
-        splice_range(
-            runs,
-            byte_offset..(byte_offset + inserted_byte_len),
-            vec![new_run],
-        );
+        // Inserting nothing must not leave a zero-length run behind.
+        if inserted_byte_len > 0 {
+            let new_run = FormatRun {
+                byte_start: byte_offset,
+                byte_end: byte_offset + inserted_byte_len,
+                format: dto_to_character_format(dto),
+            };
+            splice_range(
+                runs,
+                byte_offset..(byte_offset + inserted_byte_len),
+                vec![new_run],
+            );
+        }
         debug_assert_well_formed(runs, new_plain.len());
     }
     {
-- 
2.43.0


From 4cfb73ac74ae966c1d4aecf2b00db56c93a8d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 03/95] fix: redo of typing merged into a selection replacement
 replaces the selection again

---
 crates/document_editing/src/use_cases/insert_text_uc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index da5cfed..f44bb7a 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -642,8 +642,9 @@ impl UndoRedoCommand for InsertTextUseCase {
         };
 
         if let (Some(self_dto), Some(other_dto)) = (&mut self.last_dto, &other_cmd.last_dto) {
+            // Keep `position`/`anchor`: when this command replaced a selection,
+            // redo has to replace it again before inserting the merged text.
             self_dto.text.push_str(&other_dto.text);
-            self_dto.anchor = self_dto.position;
         }
         if let Some(other_result) = &other_cmd.last_result {
             self.last_result = Some(other_result.clone());
-- 
2.43.0


From 1f342a1c001544ccaefa6f37548b40a384a1e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:42 +0000
Subject: [PATCH 04/95] fix: keep stored block positions in line with the rope
 so no edit sees blocks out of order

---
 crates/common/src/database/rope_helpers.rs | 37 ++++++++++++++++++++++
 crates/common/src/database/transactions.rs |  2 ++
 2 files changed, 39 insertions(+)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7f715c4..939bf2b 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -921,6 +921,43 @@ pub fn rope_delete_in_block(
         .shift_after(block_byte_start + 1, -(deleted_bytes as i32));
 }
 
+/// Bring the stored `Block.document_position` of every block back in line
+/// with the rope, when the rope is the source of truth for positions (see
+/// [`rope_positions_match_flow`]).
+///
+/// Edits may leave the stored field stale in that case, because most readers
+/// derive positions from `BlockOffsetIndex`. Use cases that still order or
+/// locate blocks by the stored field (fragment, HTML, Markdown, list, frame
+/// and format edits, search) would otherwise see the blocks out of order once
+/// a stale value meets a freshly computed one.
+pub fn refresh_block_positions(store: &Store) {
+    if !rope_positions_match_flow(store) {
+        return;
+    }
+    let fresh: Vec<(EntityId, i64)> = {
+        let offsets = store.block_offsets.read().unwrap();
+        let rope = store.rope.read().unwrap();
+        offsets
+            .entries
+            .iter()
+            .filter_map(|(marker, byte_start)| {
+                let position = rope.try_byte_to_char(*byte_start as usize).ok()?;
+                Some((marker.as_block()?, position as i64))
+            })
+            .collect()
+    };
+    let mut blocks = store.blocks.write().unwrap();
+    for (id, position) in fresh {
+        if let Some(block) = blocks.get(&id)
+            && block.document_position != position
+        {
+            let mut updated = block.clone();
+            updated.document_position = position;
+            blocks.insert(id, updated);
+        }
+    }
+}
+
 /// Recompute `Frame.byte_range` for every frame in `store.frames`
 /// based on current `block_offsets` and the frame tree structure.
 /// Plan §1.6 invariant: each frame's byte_range is the (min_start,
diff --git a/crates/common/src/database/transactions.rs b/crates/common/src/database/transactions.rs
index 3e3b035..5adbfd0 100644
--- a/crates/common/src/database/transactions.rs
+++ b/crates/common/src/database/transactions.rs
@@ -40,6 +40,8 @@ impl Transaction {
         // Plan §1.6: refresh Frame.byte_range from current rope state
         // before the mutations become permanent. No-op under default.
         crate::database::rope_helpers::recompute_all_frame_byte_ranges(&self.store);
+        // Same for the block positions that edits left stale.
+        crate::database::rope_helpers::refresh_block_positions(&self.store);
         // Discard the auto-savepoint — mutations are now permanent
         if let Some(sp) = self.savepoint.take() {
             self.store.discard_savepoint(sp);
-- 
2.43.0


From 5442473693242f06154e046c51c300023709de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:17 +0000
Subject: [PATCH 05/95] fix: HTML, Markdown and LaTeX exports no longer repeat
 tables and blockquotes at the end

---
 .../src/use_cases/export_html_uc.rs           | 19 +++++++++++++++++++
 .../src/use_cases/export_latex_uc.rs          | 19 +++++++++++++++++++
 .../src/use_cases/export_markdown_uc.rs       | 19 +++++++++++++++++++
 3 files changed, 57 insertions(+)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index cb67020..f475797 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -79,6 +79,20 @@ impl ExportHtmlUseCase {
             }
         }
 
+        // Collect the frames that another frame lists in its child_order
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for fid in &frame_ids {
+            if let Some(frame) = uow.get_frame(fid)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|&&entry| entry < 0)
+                        .map(|&entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
@@ -86,6 +100,11 @@ impl ExportHtmlUseCase {
             if cell_frame_ids.contains(frame_id) {
                 continue;
             }
+            // Skip nested frames (table anchors, blockquotes) — they're rendered
+            // at their place in their parent's child_order
+            if nested_frame_ids.contains(frame_id) {
+                continue;
+            }
 
             let frame_html = self.render_frame_html(&*uow, frame_id, &cell_frame_ids)?;
             if !frame_html.is_empty() {
diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 867fd2c..7d57888 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -80,6 +80,20 @@ impl ExportLatexUseCase {
             }
         }
 
+        // Collect the frames that another frame lists in its child_order
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for fid in &frame_ids {
+            if let Some(frame) = uow.get_frame(fid)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|&&entry| entry < 0)
+                        .map(|&entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
@@ -87,6 +101,11 @@ impl ExportLatexUseCase {
             if cell_frame_ids.contains(frame_id) {
                 continue;
             }
+            // Skip nested frames (table anchors, blockquotes) — they're rendered
+            // at their place in their parent's child_order
+            if nested_frame_ids.contains(frame_id) {
+                continue;
+            }
 
             let frame_latex = self.render_frame_latex(&*uow, frame_id, &cell_frame_ids)?;
             if !frame_latex.is_empty() {
diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 44056cf..2dfe93f 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -78,6 +78,20 @@ impl ExportMarkdownUseCase {
             }
         }
 
+        // Collect the frames that another frame lists in its child_order
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for fid in &frame_ids {
+            if let Some(frame) = uow.get_frame(fid)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|&&entry| entry < 0)
+                        .map(|&entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut output_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
@@ -85,6 +99,11 @@ impl ExportMarkdownUseCase {
             if cell_frame_ids.contains(frame_id) {
                 continue;
             }
+            // Skip nested frames (table anchors, blockquotes) — they're rendered
+            // at their place in their parent's child_order
+            if nested_frame_ids.contains(frame_id) {
+                continue;
+            }
 
             // Check if this is a table anchor frame
             let frame = uow.get_frame(frame_id)?;
-- 
2.43.0


From 7c3169cd1989a6b58362a509bfe66ac792c640e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:00 +0000
Subject: [PATCH 06/95] fix: a list item added by insert_list can hold text and
 lands after the current block

---
 .../src/use_cases/insert_list_uc.rs           | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 11b5eca..96b612d 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -3,7 +3,9 @@ use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_split_block,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -97,7 +99,7 @@ fn execute_insert_list(
     blocks.sort_by_key(|b| b.document_position);
 
     // Find block at position to determine insert index
-    let (_current_block, block_idx, _offset) =
+    let (current_block, block_idx, _offset) =
         find_block_at_position(&blocks, position, &uow.store())?;
 
     let now = chrono::Utc::now();
@@ -116,12 +118,8 @@ fn execute_insert_list(
 
     // Create a new empty block with the list reference
     let store = uow.store();
-    let new_block_position = if !blocks.is_empty() {
-        let current = &blocks[block_idx];
-        current.document_position + block_char_length(current, &store) + 1
-    } else {
-        0
-    };
+    let new_block_position =
+        current_block.document_position + block_char_length(&current_block, &store) + 1;
 
     let new_block = Block {
         id: 0,
@@ -135,9 +133,20 @@ fn execute_insert_list(
     let insert_index = (block_idx + 1) as i32;
     let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
 
+    // Mirror the new empty block into the rope, right after the current block's
+    // content. Without its own entry in the offset index the block could never
+    // hold text.
+    let current_byte_len = block_content_via_store(&current_block, &store).len() as u32;
+    rope_split_block(&store, current_block.id, current_byte_len, created_block.id);
+
     // Update frame's child_order
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = updated_frame
+        .child_order
+        .iter()
+        .position(|&e| e == current_block.id as i64)
+        .map(|i| i + 1)
+        .unwrap_or(updated_frame.child_order.len());
     updated_frame
         .child_order
         .insert(child_order_insert_pos, created_block.id as i64);
-- 
2.43.0


From 5e4e1c8ed0f1dff03cd097bf9fa16de2a6ada470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 07/95] fix: character and block counters follow the text after
 multi-block insertions

---
 crates/common/src/database/rope_helpers.rs | 48 ++++++++++++++++++++++
 crates/common/src/database/transactions.rs |  2 +
 2 files changed, 50 insertions(+)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 939bf2b..8d8a685 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -958,6 +958,54 @@ pub fn refresh_block_positions(store: &Store) {
     }
 }
 
+/// Recompute `Document.character_count` and `Document.block_count` from the
+/// rope and the block table. The use cases maintain both incrementally, but
+/// a multi-block insertion that merges into its head block or drops an empty
+/// line adds fewer blocks and characters than its fragment holds.
+pub fn refresh_document_counters(store: &Store) {
+    let character_count: usize = {
+        let offsets = store.block_offsets.read().unwrap();
+        if offsets.is_empty() {
+            return;
+        }
+        let rope = store.rope.read().unwrap();
+        let mut total = 0;
+        for (marker, _) in offsets.entries.iter().filter(|(m, _)| m.is_block()) {
+            let Some((start, end, has_successor)) = offsets.range_with_successor(*marker) else {
+                return;
+            };
+            let end = if has_successor && end > start {
+                end - 1
+            } else {
+                end
+            };
+            let (Ok(start), Ok(end)) = (
+                rope.try_byte_to_char(start as usize),
+                rope.try_byte_to_char(end as usize),
+            ) else {
+                return;
+            };
+            total += end - start;
+        }
+        total
+    };
+    let character_count = character_count as i64;
+    let block_count = store.blocks.read().unwrap().len() as i64;
+    let mut documents = store.documents.write().unwrap();
+    if documents.len() != 1 {
+        return;
+    }
+    let Some(document) = documents.values().next() else {
+        return;
+    };
+    if document.character_count != character_count || document.block_count != block_count {
+        let mut updated = document.clone();
+        updated.character_count = character_count;
+        updated.block_count = block_count;
+        documents.insert(updated.id, updated);
+    }
+}
+
 /// Recompute `Frame.byte_range` for every frame in `store.frames`
 /// based on current `block_offsets` and the frame tree structure.
 /// Plan §1.6 invariant: each frame's byte_range is the (min_start,
diff --git a/crates/common/src/database/transactions.rs b/crates/common/src/database/transactions.rs
index 5adbfd0..f67ae1a 100644
--- a/crates/common/src/database/transactions.rs
+++ b/crates/common/src/database/transactions.rs
@@ -42,6 +42,8 @@ impl Transaction {
         crate::database::rope_helpers::recompute_all_frame_byte_ranges(&self.store);
         // Same for the block positions that edits left stale.
         crate::database::rope_helpers::refresh_block_positions(&self.store);
+        // And for the document's character and block counters.
+        crate::database::rope_helpers::refresh_document_counters(&self.store);
         // Discard the auto-savepoint — mutations are now permanent
         if let Some(sp) = self.savepoint.take() {
             self.store.discard_savepoint(sp);
-- 
2.43.0


From 65870dd6b828751cedb63ce13386beec826c8f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 08/95] fix: block positions follow the flow in documents with
 tables

---
 crates/common/src/database/rope_helpers.rs | 59 ++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 8d8a685..5960687 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -932,6 +932,7 @@ pub fn rope_delete_in_block(
 /// a stale value meets a freshly computed one.
 pub fn refresh_block_positions(store: &Store) {
     if !rope_positions_match_flow(store) {
+        refresh_flow_positions(store);
         return;
     }
     let fresh: Vec<(EntityId, i64)> = {
@@ -958,6 +959,64 @@ pub fn refresh_block_positions(store: &Store) {
     }
 }
 
+/// [`refresh_block_positions`] for a document whose rope order is not its
+/// flow order: lay the blocks out in flow order, table cells row by row, with
+/// one position between two consecutive blocks.
+fn refresh_flow_positions(store: &Store) {
+    let order = {
+        let documents = store.documents.read().unwrap();
+        let frames = store.frames.read().unwrap();
+        let tables = store.tables.read().unwrap();
+        let cells = store.table_cells.read().unwrap();
+        let Some(document) = documents.values().next().filter(|_| documents.len() == 1) else {
+            return;
+        };
+        let mut order: Vec<EntityId> = Vec::new();
+        // Frames still to visit, last one first; blocks are kept as positive
+        // entries and frames as negative ones, as in `Frame.child_order`.
+        let mut pending: Vec<i64> = Vec::new();
+        if let Some(main) = document.frames.first() {
+            pending.push(-(*main as i64));
+        }
+        while let Some(entry) = pending.pop() {
+            if entry > 0 {
+                order.push(entry as EntityId);
+                continue;
+            }
+            let Some(frame) = frames.get(&((-entry) as EntityId)) else {
+                continue;
+            };
+            if let Some(table) = frame.table.and_then(|id| tables.get(&id)) {
+                let mut grid: Vec<_> = table.cells.iter().filter_map(|id| cells.get(id)).collect();
+                grid.sort_by_key(|cell| (cell.row, cell.column));
+                pending.extend(
+                    grid.iter()
+                        .rev()
+                        .filter_map(|cell| Some(-(cell.cell_frame? as i64))),
+                );
+            } else if frame.child_order.is_empty() {
+                pending.extend(frame.blocks.iter().rev().map(|id| *id as i64));
+            } else {
+                pending.extend(frame.child_order.iter().rev());
+            }
+        }
+        order
+    };
+    let mut position = 0;
+    for id in order {
+        let Some(block) = store.blocks.read().unwrap().get(&id).cloned() else {
+            continue;
+        };
+        let length = block_char_length(&block, store);
+        if block.document_position != position {
+            let mut updated = block;
+            updated.document_position = position;
+            store.blocks.write().unwrap().insert(id, updated);
+        }
+        position += length + 1;
+    }
+}
+
 /// Recompute `Document.character_count` and `Document.block_count` from the
 /// rope and the block table. The use cases maintain both incrementally, but
 /// a multi-block insertion that merges into its head block or drops an empty
-- 
2.43.0


From c62b9d187eaafdfda2ab7ec316eb785b0f4a0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:49 +0000
Subject: [PATCH 09/95] fix: deletions across tables remove what they deleted
 from the rope and every frame

---
 crates/common/src/database/rope_helpers.rs    | 31 +++++++++-
 .../src/use_cases/delete_text_uc.rs           | 57 +++++++++----------
 2 files changed, 56 insertions(+), 32 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 5960687..6b74b4c 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -634,12 +634,14 @@ pub fn rope_insert_table_anchor(
     } else {
         // After target which is last: "\n\u{FFFC}" appended.
         // TableAnchor's byte_start sits 1 past the original
-        // total (after the new `\n`).
+        // total (after the new `\n`). Nothing past the target has
+        // to shift, and an empty target that starts at the insertion
+        // point itself must stay where it is.
         (
             "\n\u{FFFC}",
             insert_pos + 1,
             target_idx + 1,
-            insert_pos,
+            insert_pos + 1,
             4i32,
         )
     };
@@ -822,6 +824,31 @@ pub fn rope_remove_block(store: &Store, block_id: EntityId) {
         .shift_after(remove_end, -(deleted_bytes as i32));
 }
 
+/// Remove from the rope every block and table anchor whose entity no longer
+/// exists.
+pub fn rope_remove_stale_entries(store: &Store) {
+    let stale: Vec<OffsetMarker> = {
+        let offsets = store.block_offsets.read().unwrap();
+        let blocks = store.blocks.read().unwrap();
+        let tables = store.tables.read().unwrap();
+        offsets
+            .entries
+            .iter()
+            .map(|(marker, _)| *marker)
+            .filter(|marker| match marker {
+                OffsetMarker::Block(id) => !blocks.contains_key(id),
+                OffsetMarker::TableAnchor(id) => !tables.contains_key(id),
+            })
+            .collect()
+    };
+    for marker in stale {
+        match marker {
+            OffsetMarker::Block(id) => rope_remove_block(store, id),
+            OffsetMarker::TableAnchor(id) => rope_remove_table_anchor(store, id),
+        }
+    }
+}
+
 /// Replace the entire content of a registered block in the rope with
 /// `new_text`. Preserves the block's `byte_start` and its trailing
 /// boundary `\n` (if any); subsequent entries shift by the net
diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 400750c..27e6c11 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -182,26 +182,17 @@ fn execute_delete(
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
 
-    // Refresh stored block positions from child_order + text_length, since
-    // insert_text's fast path leaves them stale. Cell-frame blocks remain
-    // in their cell-local position space.
-    let root_frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Root frame not found"))?;
+    // Refresh stored block positions from flow order + text_length, since
+    // insert_text's fast path leaves them stale. Table cells take their
+    // place in the flow, row by row.
     let mut running: i64 = 0;
     let mut blocks_to_refresh: Vec<Block> = Vec::new();
-    for &entry in &root_frame.child_order {
-        if entry <= 0 {
-            continue;
-        }
-        let id = entry as EntityId;
-        if let Some(b) = blocks.iter_mut().find(|b| b.id == id) {
-            if b.document_position != running {
-                b.document_position = running;
-                blocks_to_refresh.push(b.clone());
-            }
-            running += block_char_length(b, &store) + 1;
+    for b in blocks.iter_mut() {
+        if b.document_position != running {
+            b.document_position = running;
+            blocks_to_refresh.push(b.clone());
         }
+        running += block_char_length(b, &store) + 1;
     }
     if !blocks_to_refresh.is_empty() {
         uow.update_block_multi(&blocks_to_refresh)?;
@@ -562,6 +553,10 @@ fn execute_delete(
             // created. No-op under default backend.
             common::database::rope_helpers::rope_reset(&uow.store());
             common::database::rope_helpers::rope_append_empty_block(&uow.store(), created.id);
+        } else {
+            // The blocks and tables removed above, some of them through the
+            // frame cascade, still occupy the rope.
+            common::database::rope_helpers::rope_remove_stale_entries(&uow.store());
         }
 
         let actual_block_count = {
@@ -801,19 +796,21 @@ fn execute_delete(
             uow.remove_block(block_id)?;
         }
 
-        let owning_frame_id = block_to_cell_frame
-            .get(&start_block.id)
-            .copied()
-            .unwrap_or(frame_id);
-        let frame = uow
-            .get_frame(&owning_frame_id)?
-            .ok_or_else(|| anyhow!("Frame not found"))?;
-        let mut updated_frame = frame.clone();
-        updated_frame
-            .child_order
-            .retain(|id| !blocks_to_remove.contains(&(*id as EntityId)));
-        updated_frame.updated_at = chrono::Utc::now();
-        uow.update_frame(&updated_frame)?;
+        let all_frame_ids =
+            uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
+        for fid in &all_frame_ids {
+            let Some(mut updated_frame) = uow.get_frame(fid)? else {
+                continue;
+            };
+            let old_len = updated_frame.child_order.len();
+            updated_frame
+                .child_order
+                .retain(|id| !blocks_to_remove.contains(&(*id as EntityId)));
+            if updated_frame.child_order.len() != old_len {
+                updated_frame.updated_at = chrono::Utc::now();
+                uow.update_frame(&updated_frame)?;
+            }
+        }
 
         // Use the pre-mutation texts captured at line 653 — by now the
         // rope merge has run and `block_char_length(start_block)` reflects
-- 
2.43.0


From 8d18c7412c2601896d0aff39409de574469d2fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:49 +0000
Subject: [PATCH 10/95] fix: failed and cancelled long operations end, with
 exactly one final event

---
 crates/common/src/long_operation.rs | 49 +++++++++++++++--------------
 crates/public_api/src/operation.rs  | 35 ++++++++++++++++++---
 2 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index e763ebd..fc0bcad 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -161,6 +161,7 @@ trait OperationHandleTrait: Send {
     fn get_progress(&self) -> OperationProgress;
     fn cancel(&self);
     fn is_finished(&self) -> bool;
+    fn outcome(&self) -> Option<OperationStatus>;
 }
 
 /// Lock a mutex, recovering from poisoning by returning the inner value.
@@ -179,7 +180,7 @@ struct OperationHandle {
     status: Arc<Mutex<OperationStatus>>,
     progress: Arc<Mutex<OperationProgress>>,
     cancel_flag: Arc<AtomicBool>,
-    _join_handle: thread::JoinHandle<()>,
+    join_handle: thread::JoinHandle<()>,
 }
 
 impl OperationHandleTrait for OperationHandle {
@@ -205,6 +206,10 @@ impl OperationHandleTrait for OperationHandle {
             OperationStatus::Completed | OperationStatus::Cancelled | OperationStatus::Failed(_)
         )
     }
+
+    fn outcome(&self) -> Option<OperationStatus> {
+        self.join_handle.is_finished().then(|| self.get_status())
+    }
 }
 
 // Manager for long operations
@@ -298,20 +303,19 @@ impl LongOperationManager {
 
             let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
 
-            let final_status = if cancel_flag_clone.load(Ordering::Relaxed) {
-                OperationStatus::Cancelled
-            } else {
-                match &operation_result {
-                    Ok(result) => {
-                        // Store the result
-                        if let Ok(serialized) = serde_json::to_string(result) {
-                            let mut results = lock_or_recover(&results_clone);
-                            results.insert(id_clone.clone(), serialized);
-                        }
-                        OperationStatus::Completed
+            // An operation that ran to completion took effect, whether or not
+            // a cancellation request reached it too late.
+            let final_status = match &operation_result {
+                Ok(result) => {
+                    // Store the result
+                    if let Ok(serialized) = serde_json::to_string(result) {
+                        let mut results = lock_or_recover(&results_clone);
+                        results.insert(id_clone.clone(), serialized);
                     }
-                    Err(e) => OperationStatus::Failed(e.to_string()),
+                    OperationStatus::Completed
                 }
+                Err(_) if cancel_flag_clone.load(Ordering::Relaxed) => OperationStatus::Cancelled,
+                Err(e) => OperationStatus::Failed(e.to_string()),
             };
 
             // Emit final status event
@@ -348,7 +352,7 @@ impl LongOperationManager {
             status,
             progress,
             cancel_flag,
-            _join_handle: join_handle,
+            join_handle,
         };
 
         lock_or_recover(&self.operations).insert(id.clone(), Box::new(handle));
@@ -372,22 +376,21 @@ impl LongOperationManager {
     pub fn cancel_operation(&self, id: &str) -> bool {
         let operations = lock_or_recover(&self.operations);
         if let Some(handle) = operations.get(id) {
+            // The operation's own thread emits the final event, exactly once.
             handle.cancel();
-            // Emit cancelled event immediately
-            if let Some(event_hub) = &self.event_hub {
-                let payload = serde_json::json!({"id": id}).to_string();
-                event_hub.send_event(Event {
-                    origin: Origin::LongOperation(LongOperationEvent::Cancelled),
-                    ids: vec![],
-                    data: Some(payload),
-                });
-            }
             true
         } else {
             false
         }
     }
 
+    /// How an operation ended, or `None` while its thread is still running.
+    /// `Running` means that the thread died without reaching a conclusion.
+    pub fn get_operation_outcome(&self, id: &str) -> Option<OperationStatus> {
+        let operations = lock_or_recover(&self.operations);
+        operations.get(id).and_then(|handle| handle.outcome())
+    }
+
     /// Check if an operation is finished
     pub fn is_operation_finished(&self, id: &str) -> Option<bool> {
         let operations = lock_or_recover(&self.operations);
diff --git a/crates/public_api/src/operation.rs b/crates/public_api/src/operation.rs
index 31770be..1a453f5 100644
--- a/crates/public_api/src/operation.rs
+++ b/crates/public_api/src/operation.rs
@@ -3,9 +3,10 @@
 use std::thread;
 use std::time::Duration;
 
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 
 use frontend::AppContext;
+use frontend::common::long_operation::OperationStatus;
 
 /// Function that polls the long-operation manager for a result.
 type ResultFn<T> = Box<dyn Fn(&AppContext, &str) -> Option<Result<T>> + Send>;
@@ -72,7 +73,7 @@ impl<T> Operation<T> {
 
     /// Returns `true` if the operation has finished (success or failure).
     pub fn is_done(&self) -> bool {
-        (self.result_fn)(&self.state.ctx, &self.id).is_some()
+        self.poll().is_some()
     }
 
     /// Cancel the operation. No-op if already finished.
@@ -86,7 +87,7 @@ impl<T> Operation<T> {
     /// the typed result. Consumes the handle.
     pub fn wait(self) -> Result<T> {
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return result;
             }
             thread::sleep(Duration::from_millis(50));
@@ -98,7 +99,7 @@ impl<T> Operation<T> {
     pub fn wait_timeout(self, timeout: Duration) -> Option<Result<T>> {
         let deadline = std::time::Instant::now() + timeout;
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return Some(result);
             }
             if std::time::Instant::now() >= deadline {
@@ -112,7 +113,31 @@ impl<T> Operation<T> {
     /// Non-blocking: returns the result if the operation has completed,
     /// `None` if still running. Can be called repeatedly.
     pub fn try_result(&mut self) -> Option<Result<T>> {
-        (self.result_fn)(&self.state.ctx, &self.id)
+        self.poll()
+    }
+
+    /// The result of a completed operation, or the reason why a failed or
+    /// cancelled one has none.
+    fn poll(&self) -> Option<Result<T>> {
+        // Read the outcome first: a result is stored before its thread ends.
+        let outcome = self
+            .state
+            .ctx
+            .long_operation_manager
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner())
+            .get_operation_outcome(&self.id);
+        let result = (self.result_fn)(&self.state.ctx, &self.id);
+        if result.is_some() {
+            return result;
+        }
+        Some(Err(match outcome? {
+            OperationStatus::Cancelled => anyhow!("Operation was cancelled"),
+            OperationStatus::Failed(error) => anyhow!(error),
+            OperationStatus::Running | OperationStatus::Completed => {
+                anyhow!("Operation ended without a result")
+            }
+        }))
     }
 }
 
-- 
2.43.0


From f9f4fafaaeea764f7e6d38a9951cbaf0e530117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:11 +0000
Subject: [PATCH 11/95] fix: the event loop no longer holds the subscribers
 lock while a callback runs

---
 crates/frontend/src/event_hub_client.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/frontend/src/event_hub_client.rs b/crates/frontend/src/event_hub_client.rs
index 57f75a8..e2148eb 100644
--- a/crates/frontend/src/event_hub_client.rs
+++ b/crates/frontend/src/event_hub_client.rs
@@ -11,8 +11,10 @@ pub type EventCallback = Box<dyn Fn(Event) + Send>;
 
 /// Internal storage: each subscriber entry pairs its id (for O(n) removal on
 /// token drop) with its callback. Vec preserves registration order so
-/// subscribers fire deterministically.
-type SubscriberList = Vec<(u64, EventCallback)>;
+/// subscribers fire deterministically. Callbacks are shared so that the event
+/// loop can run them without holding the subscribers lock: a callback may drop
+/// the last handle to its own `SubscriptionToken`.
+type SubscriberList = Vec<(u64, Arc<Mutex<EventCallback>>)>;
 
 /// EventHubClient - handles event passing from backend to UI
 /// Subscribe callbacks to specific event origins and start the event loop.
@@ -46,7 +48,7 @@ impl EventHubClient {
             let mut subs = self.subscribers.lock().unwrap();
             subs.entry(origin.clone())
                 .or_default()
-                .push((id, Box::new(callback)));
+                .push((id, Arc::new(Mutex::new(Box::new(callback)))));
         }
         SubscriptionToken {
             subscribers: Arc::clone(&self.subscribers),
@@ -83,11 +85,14 @@ impl EventHubClient {
                 match outcome {
                     Ok(Some(event)) => {
                         log::debug!("EventHubClient received event: {:?}", event);
-                        let subs = subscribers.lock().unwrap();
-                        if let Some(callbacks) = subs.get(&event.origin) {
-                            for (_id, callback) in callbacks {
-                                callback(event.clone());
-                            }
+                        let callbacks: Vec<Arc<Mutex<EventCallback>>> = subscribers
+                            .lock()
+                            .unwrap()
+                            .get(&event.origin)
+                            .map(|list| list.iter().map(|(_, cb)| Arc::clone(cb)).collect())
+                            .unwrap_or_default();
+                        for callback in callbacks {
+                            (callback.lock().unwrap())(event.clone());
                         }
                     }
                     Ok(None) => {
-- 
2.43.0


From 31db3d7e04a38f7459083bbf47cac4bb5e9a2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:11 +0000
Subject: [PATCH 12/95] fix: Markdown and HTML imports clear undo history and
 caches, and their events reach callbacks

---
 crates/public_api/src/document.rs | 117 +++++++++++++++++++-----------
 crates/public_api/src/inner.rs    |  30 +++++++-
 2 files changed, 102 insertions(+), 45 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fdd02d..60e491e 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1,6 +1,6 @@
 //! TextDocument implementation.
 
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 
 use parking_lot::Mutex;
 
@@ -88,12 +88,16 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Progress), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let (op_id, percent, message) = parse_progress_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationProgress {
-                            operation_id: op_id,
-                            percent,
-                            message,
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.queue_event(DocumentEvent::LongOperationProgress {
+                                operation_id: op_id,
+                                percent,
+                                message,
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -105,15 +109,17 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Completed), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::DocumentReset);
-                        inner.check_block_count_changed();
-                        inner.reset_cached_child_order();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: true,
-                            error: None,
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.finish_import(&op_id);
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: true,
+                                error: None,
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -125,12 +131,17 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Cancelled), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some("cancelled".into()),
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.pending_imports.remove(&op_id);
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some("cancelled".into()),
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -141,12 +152,17 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Failed), move |event| {
                     if let Some(inner) = weak.upgrade() {
                         let (op_id, error) = parse_failed_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some(error),
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.pending_imports.remove(&op_id);
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some(error),
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -158,6 +174,17 @@ impl TextDocument {
         ]);
     }
 
+    /// See [`TextDocumentInner::finish_import`].
+    fn finish_import(weak: &Weak<Mutex<TextDocumentInner>>, operation_id: &str) {
+        let Some(inner) = weak.upgrade() else { return };
+        let queued = {
+            let mut inner = inner.lock();
+            inner.finish_import(operation_id);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
+    }
+
     // ── Whole-document content ────────────────────────────────
 
     /// Replace the entire document with plain text. Clears undo history.
@@ -200,18 +227,19 @@ impl TextDocument {
             markdown_text: markdown.into(),
         };
         let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+        inner.pending_imports.insert(op_id.clone());
+        let weak = Arc::downgrade(&self.inner);
         Ok(Operation::new(
             op_id,
             &inner.ctx,
-            Box::new(|ctx, id| {
-                document_io_commands::get_import_markdown_result(ctx, id)
+            Box::new(move |ctx, id| {
+                let result = document_io_commands::get_import_markdown_result(ctx, id)
                     .ok()
-                    .flatten()
-                    .map(|r| {
-                        Ok(MarkdownImportResult {
-                            block_count: to_usize(r.block_count),
-                        })
-                    })
+                    .flatten()?;
+                Self::finish_import(&weak, id);
+                Some(Ok(MarkdownImportResult {
+                    block_count: to_usize(result.block_count),
+                }))
             }),
         ))
     }
@@ -233,18 +261,19 @@ impl TextDocument {
             html_text: html.into(),
         };
         let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+        inner.pending_imports.insert(op_id.clone());
+        let weak = Arc::downgrade(&self.inner);
         Ok(Operation::new(
             op_id,
             &inner.ctx,
-            Box::new(|ctx, id| {
-                document_io_commands::get_import_html_result(ctx, id)
+            Box::new(move |ctx, id| {
+                let result = document_io_commands::get_import_html_result(ctx, id)
                     .ok()
-                    .flatten()
-                    .map(|r| {
-                        Ok(HtmlImportResult {
-                            block_count: to_usize(r.block_count),
-                        })
-                    })
+                    .flatten()?;
+                Self::finish_import(&weak, id);
+                Some(Ok(HtmlImportResult {
+                    block_count: to_usize(result.block_count),
+                }))
             }),
         ))
     }
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index ead96b9..c7bd2f1 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -12,7 +12,7 @@
 //! then read/update cursor data while the document lock is held, and
 //! call `adjust_cursors()` before releasing the document lock.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Weak};
 
@@ -100,6 +100,10 @@ pub(crate) struct TextDocumentInner {
     // Holds SubscriptionTokens for LongOperation event bridges. Dropping a
     // token unsubscribes the callback, so these must outlive the document.
     pub long_op_subscriptions: Vec<SubscriptionToken>,
+
+    // Ids of the Markdown/HTML imports whose completion has not been taken
+    // into account yet (see `finish_import`).
+    pub pending_imports: HashSet<String>,
 }
 
 impl TextDocumentInner {
@@ -286,6 +290,29 @@ impl TextDocumentInner {
         self.last_child_order = self.main_frame_child_order();
     }
 
+    /// Bring the document state in line with a completed Markdown/HTML import:
+    /// the undo history described the replaced content, and so did the caches.
+    ///
+    /// Both the completion event and the reading of the operation's result end
+    /// up here; whichever comes first does the work.
+    pub fn finish_import(&mut self, operation_id: &str) {
+        use frontend::commands::undo_redo_commands;
+
+        if !self.pending_imports.remove(operation_id) {
+            return;
+        }
+        undo_redo_commands::clear_stack(&self.ctx, self.stack_id);
+        self.invalidate_text_cache();
+        self.rehighlight_all();
+        self.queue_event(DocumentEvent::DocumentReset);
+        self.check_block_count_changed();
+        self.reset_cached_child_order();
+        self.queue_event(DocumentEvent::UndoRedoChanged {
+            can_undo: false,
+            can_redo: false,
+        });
+    }
+
     /// Read the main frame's current child_order from the database.
     fn main_frame_child_order(&self) -> Vec<i64> {
         let frames = frontend::commands::document_commands::get_document_relationship(
@@ -392,6 +419,7 @@ impl TextDocumentInner {
             last_child_order: vec![block.id as i64],
             highlight: None,
             long_op_subscriptions: Vec::new(),
+            pending_imports: HashSet::new(),
         })
     }
 }
-- 
2.43.0


From 9f57fc444f78bd74fd2f9c233e8af0152a617aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:08 +0000
Subject: [PATCH 13/95] fix: imports remove the tables and lists they replace
 and link imported cells to their table

---
 .../src/units_of_work/import_html_uow.rs      |  7 ++++
 .../src/units_of_work/import_markdown_uow.rs  |  2 ++
 .../units_of_work/import_plain_text_uow.rs    |  4 ++-
 .../src/use_cases/import_html_uc.rs           | 34 +++++++++++++++++++
 .../src/use_cases/import_markdown_uc.rs       | 18 ++++++++++
 .../src/use_cases/import_plain_text_uc.rs     | 18 ++++++++++
 6 files changed, 82 insertions(+), 1 deletion(-)

diff --git a/crates/document_io/src/units_of_work/import_html_uow.rs b/crates/document_io/src/units_of_work/import_html_uow.rs
index 461a766..20ca7ea 100644
--- a/crates/document_io/src/units_of_work/import_html_uow.rs
+++ b/crates/document_io/src/units_of_work/import_html_uow.rs
@@ -105,6 +105,13 @@ impl CommandUnitOfWork for ImportHtmlUnitOfWork {
 #[macros::uow_action(entity = "Resource", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Table", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "TableCell", action = "Create", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(
+    entity = "Frame",
+    action = "UpdateWithRelationships",
+    thread_safe = true
+)]
 impl ImportHtmlUnitOfWorkTrait for ImportHtmlUnitOfWork {}
 
 pub struct ImportHtmlUnitOfWorkFactory {
diff --git a/crates/document_io/src/units_of_work/import_markdown_uow.rs b/crates/document_io/src/units_of_work/import_markdown_uow.rs
index 2f8ccc6..40c1415 100644
--- a/crates/document_io/src/units_of_work/import_markdown_uow.rs
+++ b/crates/document_io/src/units_of_work/import_markdown_uow.rs
@@ -109,6 +109,8 @@ impl CommandUnitOfWork for ImportMarkdownUnitOfWork {
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Table", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "TableCell", action = "Create", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
 impl ImportMarkdownUnitOfWorkTrait for ImportMarkdownUnitOfWork {}
 
 pub struct ImportMarkdownUnitOfWorkFactory {
diff --git a/crates/document_io/src/units_of_work/import_plain_text_uow.rs b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
index ee2abd4..0311978 100644
--- a/crates/document_io/src/units_of_work/import_plain_text_uow.rs
+++ b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
@@ -7,7 +7,7 @@ use anyhow::{Ok, Result};
 use common::database::CommandUnitOfWork;
 use common::database::{db_context::DbContext, transactions::Transaction};
 #[allow(unused_imports)]
-use common::entities::{Block, Document, Frame, Root};
+use common::entities::{Block, Document, Frame, List, Root, Table};
 use common::event::{AllEvent, DirectAccessEntity, Event, EventBuffer, EventHub, Origin};
 #[allow(unused_imports)]
 use common::types;
@@ -98,6 +98,8 @@ impl CommandUnitOfWork for ImportPlainTextUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
+#[macros::uow_action(entity = "List", action = "Remove")]
 impl ImportPlainTextUnitOfWorkTrait for ImportPlainTextUnitOfWork {}
 
 pub struct ImportPlainTextUnitOfWorkFactory {
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 1e6d724..3f7a388 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -38,6 +38,13 @@ pub trait ImportHtmlUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Resource", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Table", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "TableCell", action = "Create", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(
+    entity = "Frame",
+    action = "UpdateWithRelationships",
+    thread_safe = true
+)]
 pub trait ImportHtmlUnitOfWorkTrait: CommandUnitOfWork + Send + Sync {}
 
 pub struct ImportHtmlUseCase {
@@ -105,6 +112,22 @@ impl LongOperation for ImportHtmlUseCase {
             uow.remove_frame(frame_id)?;
         }
 
+        // The tables and lists of the replaced content go with it.
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
+
         if cancel_flag.load(Ordering::Relaxed) {
             uow.rollback()?;
             return Err(anyhow!("Operation was cancelled"));
@@ -304,11 +327,13 @@ impl LongOperation for ImportHtmlUseCase {
                     let current_frame_id = frame_stack.last().unwrap().frame_id;
                     let total_cells = num_rows * num_cols;
                     let mut cell_count: i64 = 0;
+                    let mut created_cell_frame_ids: Vec<common::types::EntityId> = Vec::new();
 
                     for (r, row) in parsed_table.rows.iter().enumerate() {
                         for (c, cell) in row.iter().enumerate() {
                             let cell_frame = Frame::default();
                             let created_cell_frame = uow.create_frame(&cell_frame, doc_id, -1)?;
+                            created_cell_frame_ids.push(created_cell_frame.id);
 
                             let (plain_text, format_runs) =
                                 format_runs_from_spans(&cell.spans, false);
@@ -369,6 +394,15 @@ impl LongOperation for ImportHtmlUseCase {
                     };
                     let created_anchor = uow.create_frame(&anchor_frame, doc_id, -1)?;
 
+                    // Cell frames are found to belong to a table through
+                    // their `parent_frame`, known only now.
+                    for cell_frame_id in &created_cell_frame_ids {
+                        if let Some(mut cell_frame) = uow.get_frame(cell_frame_id)? {
+                            cell_frame.parent_frame = Some(created_anchor.id);
+                            uow.update_frame_with_relationships(&cell_frame)?;
+                        }
+                    }
+
                     frame_stack
                         .last_mut()
                         .unwrap()
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index cb6e719..a601974 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -38,6 +38,8 @@ pub trait ImportMarkdownUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Table", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "TableCell", action = "Create", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
 pub trait ImportMarkdownUnitOfWorkTrait: CommandUnitOfWork + Send + Sync {}
 
 pub struct ImportMarkdownUseCase {
@@ -92,6 +94,22 @@ fn import_parsed_elements(
         uow.remove_frame(frame_id)?;
     }
 
+    // The tables and lists of the replaced content go with it.
+    let table_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Tables,
+    )?;
+    for table_id in &table_ids {
+        uow.remove_table(table_id)?;
+    }
+    let list_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Lists,
+    )?;
+    for list_id in &list_ids {
+        uow.remove_list(list_id)?;
+    }
+
     if cancel_flag.load(Ordering::Relaxed) {
         return Err(anyhow!("Operation was cancelled"));
     }
diff --git a/crates/document_io/src/use_cases/import_plain_text_uc.rs b/crates/document_io/src/use_cases/import_plain_text_uc.rs
index 168e6c4..a480cb1 100644
--- a/crates/document_io/src/use_cases/import_plain_text_uc.rs
+++ b/crates/document_io/src/use_cases/import_plain_text_uc.rs
@@ -22,6 +22,8 @@ pub trait ImportPlainTextUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
+#[macros::uow_action(entity = "List", action = "Remove")]
 pub trait ImportPlainTextUnitOfWorkTrait: CommandUnitOfWork {}
 
 pub struct ImportPlainTextUseCase {
@@ -57,6 +59,22 @@ impl ImportPlainTextUseCase {
             uow.remove_frame(frame_id)?;
         }
 
+        // The tables and lists of the replaced content go with it.
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
+
         let new_frame = Frame::default();
         let created_frame = uow.create_frame(&new_frame, doc_id, -1)?;
 
-- 
2.43.0


From 8e4f45b45560713eb6ed3edc36c9b37e1437c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 14/95] fix: replacing a block's text keeps its separator when
 the last block is empty

---
 crates/common/src/database/rope_helpers.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 6b74b4c..8c68525 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -864,16 +864,16 @@ pub fn rope_remove_stale_entries(store: &Store) {
 pub fn rope_replace_block_content(store: &Store, block_id: EntityId, new_text: &str) {
     let (block_byte_start, content_bytes) = {
         let offsets = store.block_offsets.read().unwrap();
-        let Some((start, end)) = offsets.range_of_block(block_id) else {
+        let marker = OffsetMarker::Block(block_id);
+        let Some((start, end, has_successor)) = offsets.range_with_successor(marker) else {
             return;
         };
-        let total = offsets.total_bytes();
         // `range_of` extends to the next entry's `byte_start` (or to
-        // `total_bytes`). If there's a following entry, the byte at
-        // `end - 1` is the inter-block boundary `\n` that belongs to
-        // the boundary between this block and the next, not to this
-        // block's content.
-        let has_trailing_boundary = end < total;
+        // `total_bytes`). If there's a following entry, even an empty
+        // last one, the byte at `end - 1` is the inter-block boundary
+        // `\n` that belongs to the boundary between this block and the
+        // next, not to this block's content.
+        let has_trailing_boundary = has_successor && end > start;
         let content_bytes = if has_trailing_boundary {
             end - start - 1
         } else {
-- 
2.43.0


From 8d64a8fa3413cdbe187cc4440f279614fb3b0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 15/95] fix: splitting a block in a table cell keeps the new
 block in the cell

---
 .../src/use_cases/insert_block_uc.rs             | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index 3d62a1e..8fd0da1 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -195,7 +195,21 @@ fn execute_insert_block(
         }
         Ok(None)
     }
-    let owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?.unwrap_or(frame_id);
+    let mut owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?;
+    if owner_frame_id.is_none() {
+        // The flow reaches table cells through their table, not through
+        // `child_order`; their frames belong to the document all the same.
+        for fid in &frame_ids {
+            if uow
+                .get_frame_relationship(fid, &FrameRelationshipField::Blocks)?
+                .contains(&current_block.id)
+            {
+                owner_frame_id = Some(*fid);
+                break;
+            }
+        }
+    }
+    let owner_frame_id = owner_frame_id.unwrap_or(frame_id);
 
     let created_block = uow.create_block(&new_block, owner_frame_id, -1)?;
 
-- 
2.43.0


From c90fb57d2ec6adee4032e664cea5fedb1519a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 16/95] fix: deletions across blocks no longer assume that the
 rope follows the flow order

---
 .../src/use_cases/delete_text_uc.rs           | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 27e6c11..cc4e020 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -763,18 +763,6 @@ fn execute_delete(
             .unwrap()
             .insert(start_block.id, merged_images);
 
-        // Cross-block merge: delete the rope range from
-        // `start_block + byte_so` through `end_block + byte_eo`,
-        // remove the intermediate + end-block index entries, and
-        // shift subsequent offsets.
-        common::database::rope_helpers::rope_merge_block_range(
-            &store,
-            start_block.id,
-            byte_so,
-            end_block.id,
-            byte_eo,
-        );
-
         // Remove intermediate and end blocks.
         let blocks_to_remove: Vec<EntityId> = blocks[(start_block_idx + 1)..=end_block_idx]
             .iter()
@@ -784,17 +772,18 @@ fn execute_delete(
 
         for block_id in &blocks_to_remove {
             drop_block_runs_and_images(uow.as_ref(), *block_id);
-            // `rope_merge_block_range` only drains entries in the
-            // rope-adjacent slice [start_idx+1..=end_idx]. Blocks
-            // whose rope position is outside that slice (notably
-            // table cells, which live at top_level_frame_end_byte
-            // for their parent frame, far from the main-flow
-            // selection) stay in `block_offsets` with stale entries.
-            // Drop them here so the rope index doesn't carry
-            // dangling block ids past delete_text.
+            // The rope order of blocks and tables is not the flow order
+            // (table cells live at top_level_frame_end_byte, for one), so
+            // the removed blocks leave the rope one by one: whatever lies
+            // between two of them may belong elsewhere in the document.
             common::database::rope_helpers::rope_remove_block(&uow.store(), *block_id);
             uow.remove_block(block_id)?;
         }
+        common::database::rope_helpers::rope_replace_block_content(
+            &store,
+            start_block.id,
+            &merged_plain,
+        );
 
         let all_frame_ids =
             uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-- 
2.43.0


From 256f6d5a17a11bb84f5554553190720c612bddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 17/95] fix: a table inserted from any cell lands after the
 table that holds the cell

---
 .../src/use_cases/insert_table_uc.rs          | 58 +++++++++++--------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 52c38e4..016d3e6 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -224,22 +224,42 @@ fn execute_insert_table(
         // hoist the new table OUT to be a sibling of the containing
         // table, immediately after it. Reproduced by
         // `insert_table_from_inside_cell_lands_after_containing_table`.
-        let owning_frame = uow
-            .get_frame(&found_frame_id)?
-            .ok_or_else(|| anyhow!("Owning frame {found_frame_id} not found"))?;
-        let mut cell_anchor: Option<(EntityId, EntityId)> = None;
-        if let Some(parent_id) = owning_frame.parent_frame {
-            let parent = uow
-                .get_frame(&parent_id)?
-                .ok_or_else(|| anyhow!("Parent frame {parent_id} not found"))?;
-            if parent.table.is_some()
-                && let Some(grandparent_id) = parent.parent_frame
-            {
-                cell_anchor = Some((parent_id, grandparent_id));
+        //
+        // The containing table is found through its cells: not every
+        // cell frame (pasted tables, added rows and columns, split
+        // cells) has a `parent_frame`.
+        let containing_table_cell_frames: Option<(EntityId, Vec<EntityId>)> = {
+            let store = uow.store();
+            let cells = store.table_cells.read().unwrap();
+            let tables = store.tables.read().unwrap();
+            tables
+                .values()
+                .map(|table| {
+                    let cell_frames: Vec<EntityId> = table
+                        .cells
+                        .iter()
+                        .filter_map(|id| cells.get(id).and_then(|cell| cell.cell_frame))
+                        .collect();
+                    (table.id, cell_frames)
+                })
+                .find(|(_, cell_frames)| cell_frames.contains(&found_frame_id))
+        };
+        let mut cell_anchor: Option<(EntityId, EntityId, Vec<EntityId>)> = None;
+        if let Some((table_id, cell_frames)) = containing_table_cell_frames {
+            for fid in &frame_ids {
+                let frame = uow
+                    .get_frame(fid)?
+                    .ok_or_else(|| anyhow!("Frame {fid} not found"))?;
+                if frame.table == Some(table_id)
+                    && let Some(grandparent_id) = frame.parent_frame
+                {
+                    cell_anchor = Some((*fid, grandparent_id, cell_frames));
+                    break;
+                }
             }
         }
 
-        if let Some((anchor_frame_id, grandparent_id)) = cell_anchor {
+        if let Some((anchor_frame_id, grandparent_id, cell_frames)) = cell_anchor {
             let grandparent = uow
                 .get_frame(&grandparent_id)?
                 .ok_or_else(|| anyhow!("Grandparent frame {grandparent_id} not found"))?;
@@ -251,22 +271,14 @@ fn execute_insert_table(
                 .ok_or_else(|| anyhow!("Anchor frame missing from grandparent child_order"))?;
 
             // cell_start: position right after the existing table's
-            // last cell. Cells of the existing table are blocks in
-            // frames whose `parent_frame == anchor_frame_id`. The
-            // snapshot walker assigns running positions where each
+            // last cell. The snapshot walker assigns running positions where each
             // block contributes (length + 1) — the +1 is the per-block
             // boundary the walker emits between siblings. So the next
             // free slot in the grandparent's flow is
             // `max(cell_block.document_position + cell_block.length) + 1`.
             let mut last_end: i64 = 0;
             let mut any = false;
-            for fid in &frame_ids {
-                let f = uow
-                    .get_frame(fid)?
-                    .ok_or_else(|| anyhow!("Frame {fid} not found"))?;
-                if f.parent_frame != Some(anchor_frame_id) {
-                    continue;
-                }
+            for fid in &cell_frames {
                 let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
                 if block_ids.is_empty() {
                     continue;
-- 
2.43.0


From dea622fca1c4409bcdfb18e06d9a5ac07ca7bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 18/95] fix: the block of an inserted nested frame takes its
 place in the text

---
 .../src/use_cases/insert_frame_uc.rs          | 63 +++++++++++++++----
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index cfa8c59..58be8ad 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -2,8 +2,9 @@ use crate::InsertFrameDto;
 use crate::InsertFrameResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::block_offset_index::OffsetMarker;
 use common::database::rope_helpers::block_char_length;
-use common::database::rope_helpers::rope_append_empty_block;
+use common::database::rope_helpers::{rope_append_empty_block, rope_insert_block_at};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -80,6 +81,25 @@ fn find_frame_at_position(
     Ok(None)
 }
 
+/// The last block the flow reaches in `entries` (a slice of a frame's
+/// `child_order`).
+fn last_block_before(
+    uow: &dyn InsertFrameUnitOfWorkTrait,
+    entries: &[i64],
+) -> Result<Option<EntityId>> {
+    for &entry in entries.iter().rev() {
+        if entry > 0 {
+            return Ok(Some(entry as EntityId));
+        }
+        if let Some(frame) = uow.get_frame(&((-entry) as EntityId))?
+            && let Some(block_id) = last_block_before(uow, &frame.child_order)?
+        {
+            return Ok(Some(block_id));
+        }
+    }
+    Ok(None)
+}
+
 fn execute_insert_frame(
     uow: &mut Box<dyn InsertFrameUnitOfWorkTrait>,
     dto: &InsertFrameDto,
@@ -164,12 +184,15 @@ fn execute_insert_frame(
     uow.update_frame(&updated_new_frame)?;
 
     // If there's a parent frame, insert the new frame into its child_order
+    let store = uow.store();
+    let mut predecessor = None;
     if let Some(parent_id) = parent_frame_id {
         let parent_frame = uow
             .get_frame(&parent_id)?
             .ok_or_else(|| anyhow!("Parent frame not found"))?;
         let mut updated_parent = parent_frame.clone();
         let idx = child_order_insert_idx.min(updated_parent.child_order.len());
+        predecessor = last_block_before(&**uow, &updated_parent.child_order[..idx])?;
         // Use negative IDs to distinguish sub-frame references from block IDs
         // Convention: positive = block ID, negative = -(frame ID)
         updated_parent
@@ -185,19 +208,35 @@ fn execute_insert_frame(
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-    // Plan §1.6: mirror to rope. Top-level (parent=None) frames
-    // append at rope end with a `\n` boundary; the new empty block is
+    // Plan §1.6: mirror to rope. Top-level (parent=None) frames append at
+    // rope end with a `\n` boundary; nested ones land right behind the
+    // block that precedes them in the flow. The new empty block is
     // registered in block_offsets so subsequent edits can find it.
     // Frame.byte_range is recomputed centrally in Transaction::commit.
-    //
-    // Nested (parent=Some) frames are NOT mirrored here — their
-    // position depends on parent.child_order interleaving with sibling
-    // blocks/tables/frames. Sub-frame insertion within a populated
-    // parent is currently a follow-up; this matches the pre-existing
-    // behavior where insert_frame_uc only populated the entity tree.
-    // No-op under default backend.
-    if parent_frame_id.is_none() {
-        rope_append_empty_block(&uow.store(), created_block.id);
+    match predecessor {
+        Some(block_id) => {
+            let end_byte = {
+                let offsets = store.block_offsets.read().unwrap();
+                offsets
+                    .range_with_successor(OffsetMarker::Block(block_id))
+                    .map(|(start, end, has_successor)| {
+                        if has_successor && end > start {
+                            end - 1
+                        } else {
+                            end
+                        }
+                    })
+            };
+            match end_byte {
+                Some(byte) => rope_insert_block_at(&store, byte, created_block.id, ""),
+                None => {
+                    rope_append_empty_block(&store, created_block.id);
+                }
+            }
+        }
+        None => {
+            rope_append_empty_block(&store, created_block.id);
+        }
     }
 
     Ok((
-- 
2.43.0


From 9325d8aa1f65e065a524f9d6dc4e57ef4b2abbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 19/95] fix: an empty first block keeps its separator when a
 table or block is appended

---
 crates/common/src/database/rope_helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 8c68525..1475bf7 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -370,7 +370,7 @@ pub fn top_level_frame_end_byte(store: &Store, frame_id: EntityId) -> u32 {
 /// position. Returns that byte position. Used when `insert_frame_uc`
 /// creates a new top-level frame with a single empty block.
 pub fn rope_append_empty_block(store: &Store, block_id: EntityId) -> u32 {
-    let was_empty = store.rope.read().unwrap().len_bytes() == 0;
+    let was_empty = store.block_offsets.read().unwrap().is_empty();
     if !was_empty {
         rope_insert_block_boundary(store);
     }
@@ -676,9 +676,9 @@ pub fn rope_insert_table_anchor(
 }
 
 /// Append a U+FFFC table-anchor sentinel at the end of the rope and
-/// register a `TableAnchor(table_id)` marker. If the rope is already
-/// non-empty, prepends a `\n` boundary so the sentinel doesn't run
-/// into the previous entry's content.
+/// register a `TableAnchor(table_id)` marker. If anything is already
+/// registered, even an empty block, prepends a `\n` boundary so the
+/// sentinel doesn't run into the previous entry's content.
 ///
 /// Used by import paths (`import_html_uc`, `import_markdown_uc`)
 /// that process the document linearly and append entities as they
@@ -686,8 +686,8 @@ pub fn rope_insert_table_anchor(
 /// target block.
 pub fn rope_append_table_anchor(store: &Store, table_id: EntityId) {
     let (anchor_byte_start, new_total) = {
+        let was_empty = store.block_offsets.read().unwrap().is_empty();
         let mut rope = store.rope.write().unwrap();
-        let was_empty = rope.len_bytes() == 0;
         let char_end = rope.len_chars();
         let to_insert = if was_empty { "\u{FFFC}" } else { "\n\u{FFFC}" };
         rope.insert(char_end, to_insert);
-- 
2.43.0


From ca52d237a1bebc0f3cff0e3b9b3f02b5ece3a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 20/95] fix: removing a table keeps the offsets of empty
 neighbours and of a lone table right

---
 crates/common/src/database/rope_helpers.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 1475bf7..3305a4a 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -733,11 +733,13 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
     //   preceding `\n` + the 3-byte sentinel
     // - otherwise: [byte_start .. byte_start + 4) — the sentinel
     //   + the following `\n`
-    let (remove_start, remove_end) = if anchor_is_last && has_predecessor {
-        (anchor_byte_start - 1, anchor_byte_start + 3)
-    } else {
-        (anchor_byte_start, anchor_byte_start + 4)
+    // - the sole entry has no boundary `\n` at all
+    let (remove_start, remove_end) = match (anchor_is_last, has_predecessor) {
+        (true, true) => (anchor_byte_start - 1, anchor_byte_start + 3),
+        (true, false) => (anchor_byte_start, anchor_byte_start + 3),
+        (false, _) => (anchor_byte_start, anchor_byte_start + 4),
     };
+    let deleted_bytes = remove_end - remove_start;
 
     {
         let mut rope = store.rope.write().unwrap();
@@ -749,11 +751,13 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         let mut offsets = store.block_offsets.write().unwrap();
         offsets.remove_at(anchor_idx);
     }
+    // As in `rope_remove_block`: an empty predecessor may start at
+    // `remove_start` itself and must stay there.
     store
         .block_offsets
         .write()
         .unwrap()
-        .shift_after(remove_start, -4);
+        .shift_after(remove_end, -(deleted_bytes as i32));
 }
 
 /// Remove a registered block from the rope: drops its content bytes
-- 
2.43.0


From f97ac0a0f1049a3025fa199b9bc37d2feef952c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 21/95] fix: blocks return to flow order in the rope once the
 last table is gone

---
 crates/common/src/database/rope_helpers.rs | 113 ++++++++++++++-------
 1 file changed, 75 insertions(+), 38 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 3305a4a..c32edb1 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -6,6 +6,8 @@
 //! rope and return empty when a block is not yet registered in the
 //! offset index.
 
+use std::sync::Arc;
+
 use crate::database::Store;
 use crate::database::block_offset_index::OffsetMarker;
 use crate::entities::Block;
@@ -966,6 +968,7 @@ pub fn refresh_block_positions(store: &Store) {
         refresh_flow_positions(store);
         return;
     }
+    restore_flow_order(store);
     let fresh: Vec<(EntityId, i64)> = {
         let offsets = store.block_offsets.read().unwrap();
         let rope = store.rope.read().unwrap();
@@ -990,48 +993,82 @@ pub fn refresh_block_positions(store: &Store) {
     }
 }
 
+/// The blocks of the document in flow order, table cells row by row.
+fn flow_block_order(store: &Store) -> Option<Vec<EntityId>> {
+    let documents = store.documents.read().unwrap();
+    let frames = store.frames.read().unwrap();
+    let tables = store.tables.read().unwrap();
+    let cells = store.table_cells.read().unwrap();
+    let document = documents.values().next().filter(|_| documents.len() == 1)?;
+    let mut order: Vec<EntityId> = Vec::new();
+    // Frames still to visit, last one first; blocks are kept as positive
+    // entries and frames as negative ones, as in `Frame.child_order`.
+    let mut pending: Vec<i64> = Vec::new();
+    if let Some(main) = document.frames.first() {
+        pending.push(-(*main as i64));
+    }
+    while let Some(entry) = pending.pop() {
+        if entry > 0 {
+            order.push(entry as EntityId);
+            continue;
+        }
+        let Some(frame) = frames.get(&((-entry) as EntityId)) else {
+            continue;
+        };
+        if let Some(table) = frame.table.and_then(|id| tables.get(&id)) {
+            let mut grid: Vec<_> = table.cells.iter().filter_map(|id| cells.get(id)).collect();
+            grid.sort_by_key(|cell| (cell.row, cell.column));
+            pending.extend(
+                grid.iter()
+                    .rev()
+                    .filter_map(|cell| Some(-(cell.cell_frame? as i64))),
+            );
+        } else if frame.child_order.is_empty() {
+            pending.extend(frame.blocks.iter().rev().map(|id| *id as i64));
+        } else {
+            pending.extend(frame.child_order.iter().rev());
+        }
+    }
+    Some(order)
+}
+
+/// Put the blocks of a document without tables back in flow order in the
+/// rope. Around tables the two orders differ; they have to agree again once
+/// the last table is gone.
+fn restore_flow_order(store: &Store) {
+    let Some(order) = flow_block_order(store) else {
+        return;
+    };
+    let entries = Arc::clone(&store.block_offsets.read().unwrap().entries);
+    let indexed = entries.iter().map(|(marker, _)| marker.as_block());
+    if order.len() != entries.len() || indexed.eq(order.iter().map(|id| Some(*id))) {
+        return;
+    }
+    let contents: Vec<String> = {
+        let blocks = store.blocks.read().unwrap();
+        order
+            .iter()
+            .filter_map(|id| Some(block_content_via_store(blocks.get(id)?, store)))
+            .collect()
+    };
+    if contents.len() != order.len() {
+        return;
+    }
+    rope_reset(store);
+    for (i, (id, content)) in order.iter().zip(&contents).enumerate() {
+        if i > 0 {
+            rope_insert_block_boundary(store);
+        }
+        rope_append_block(store, *id, content);
+    }
+}
+
 /// [`refresh_block_positions`] for a document whose rope order is not its
 /// flow order: lay the blocks out in flow order, table cells row by row, with
 /// one position between two consecutive blocks.
 fn refresh_flow_positions(store: &Store) {
-    let order = {
-        let documents = store.documents.read().unwrap();
-        let frames = store.frames.read().unwrap();
-        let tables = store.tables.read().unwrap();
-        let cells = store.table_cells.read().unwrap();
-        let Some(document) = documents.values().next().filter(|_| documents.len() == 1) else {
-            return;
-        };
-        let mut order: Vec<EntityId> = Vec::new();
-        // Frames still to visit, last one first; blocks are kept as positive
-        // entries and frames as negative ones, as in `Frame.child_order`.
-        let mut pending: Vec<i64> = Vec::new();
-        if let Some(main) = document.frames.first() {
-            pending.push(-(*main as i64));
-        }
-        while let Some(entry) = pending.pop() {
-            if entry > 0 {
-                order.push(entry as EntityId);
-                continue;
-            }
-            let Some(frame) = frames.get(&((-entry) as EntityId)) else {
-                continue;
-            };
-            if let Some(table) = frame.table.and_then(|id| tables.get(&id)) {
-                let mut grid: Vec<_> = table.cells.iter().filter_map(|id| cells.get(id)).collect();
-                grid.sort_by_key(|cell| (cell.row, cell.column));
-                pending.extend(
-                    grid.iter()
-                        .rev()
-                        .filter_map(|cell| Some(-(cell.cell_frame? as i64))),
-                );
-            } else if frame.child_order.is_empty() {
-                pending.extend(frame.blocks.iter().rev().map(|id| *id as i64));
-            } else {
-                pending.extend(frame.child_order.iter().rev());
-            }
-        }
-        order
+    let Some(order) = flow_block_order(store) else {
+        return;
     };
     let mut position = 0;
     for id in order {
-- 
2.43.0


From ce7397ab397785e7d4d2f103e3b50e6cb0eec6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 22/95] fix: removing the only content of a document leaves an
 empty block

---
 .../src/units_of_work/remove_table_uow.rs     |  1 +
 .../src/use_cases/remove_table_uc.rs          | 27 ++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/units_of_work/remove_table_uow.rs b/crates/document_editing/src/units_of_work/remove_table_uow.rs
index 144e90f..11fb039 100644
--- a/crates/document_editing/src/units_of_work/remove_table_uow.rs
+++ b/crates/document_editing/src/units_of_work/remove_table_uow.rs
@@ -99,6 +99,7 @@ impl CommandUnitOfWork for RemoveTableUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Get")]
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 0abf111..5ae0cf3 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -27,6 +27,7 @@ pub trait RemoveTableUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
 #[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Table", action = "Get")]
@@ -130,6 +131,7 @@ fn execute_remove_table(
     }
 
     // Remove anchor frame
+    let mut emptied_frame_id: Option<EntityId> = None;
     if let Some(anchor_id) = anchor_frame_id {
         // First, remove the anchor from its parent frame's child_order
         let frames_opt = uow.get_frame_multi(&frame_ids)?;
@@ -140,6 +142,7 @@ fn execute_remove_table(
                 updated.child_order.retain(|&x| x != neg_anchor);
                 updated.updated_at = now;
                 uow.update_frame(&updated)?;
+                emptied_frame_id = updated.child_order.is_empty().then_some(updated.id);
                 break;
             }
         }
@@ -154,6 +157,28 @@ fn execute_remove_table(
     // Remove the table (cascade removes TableCells)
     uow.remove_table(&table_id)?;
 
+    // A document keeps at least one block
+    let mut created_blocks: i64 = 0;
+    let is_empty = uow.store().block_offsets.read().unwrap().is_empty();
+    if let Some(frame_id) = emptied_frame_id.filter(|_| is_empty) {
+        let created = uow.create_block(
+            &Block {
+                created_at: now,
+                updated_at: now,
+                ..Default::default()
+            },
+            frame_id,
+            -1,
+        )?;
+        if let Some(mut frame) = uow.get_frame(&frame_id)? {
+            frame.child_order = vec![created.id as i64];
+            frame.updated_at = now;
+            uow.update_frame(&frame)?;
+        }
+        common::database::rope_helpers::rope_append_empty_block(&uow.store(), created.id);
+        created_blocks = 1;
+    }
+
     // Shift document_position for blocks after the removed table
     if let Some(table_start_pos) = min_cell_position {
         // Get all remaining blocks and shift those after the table
@@ -181,7 +206,7 @@ fn execute_remove_table(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= total_cell_blocks;
+    updated_doc.block_count += created_blocks - total_cell_blocks;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From 44171856640de7a1cb3ec77b60d760bd8dd1df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 23/95] fix: cursors left behind the new end of the document
 are brought back

---
 crates/public_api/src/inner.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index c7bd2f1..844d6bf 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -130,6 +130,18 @@ impl TextDocumentInner {
         }
     }
 
+    /// Keep every cursor at or before `end`, the last position of the document.
+    fn clamp_cursors(&mut self, end: usize) {
+        for cursor in self.cursors.iter().filter_map(Weak::upgrade) {
+            let mut data = cursor.lock();
+            if data.position > end || data.anchor > end {
+                data.position = data.position.min(end);
+                data.anchor = data.anchor.min(end);
+                data.cell_selection_override = None;
+            }
+        }
+    }
+
     /// Register a new cursor and return its shared data.
     pub fn register_cursor(&mut self, position: usize) -> Arc<Mutex<CursorData>> {
         self.prune_dead_cursors();
@@ -222,10 +234,14 @@ impl TextDocumentInner {
     }
 
     /// Check the current block count and queue a `BlockCountChanged` event if it changed.
+    ///
+    /// Every change of the document's content ends here, so this is also where
+    /// cursors that the change left behind the new end are brought back.
     pub fn check_block_count_changed(&mut self) {
         let doc = frontend::commands::document_commands::get_document(&self.ctx, &self.document_id);
         if let Ok(Some(doc)) = doc {
             let new_count = doc.block_count as usize;
+            self.clamp_cursors(doc.character_count as usize + new_count.saturating_sub(1));
             if new_count != self.last_block_count {
                 self.last_block_count = new_count;
                 self.queue_event(crate::DocumentEvent::BlockCountChanged(new_count));
-- 
2.43.0


From 06c3c6c2b4bd785cbe64a86dcaf259a4719e1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 24/95] fix: a table row or column inserted through a merged
 cell adds no cell under it

---
 .../src/use_cases/insert_table_column_uc.rs              | 9 ++++++---
 .../src/use_cases/insert_table_row_uc.rs                 | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index adcac29..6d10b0e 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -93,6 +93,8 @@ fn execute_insert_table_column(
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    // The rows whose place in the new column an expanded cell already takes
+    let mut covered: std::collections::HashSet<i64> = std::collections::HashSet::new();
     for cell in &cells {
         if cell.column >= dto.column_index {
             // Cell starts at or after the insertion point — shift it right
@@ -105,6 +107,7 @@ fn execute_insert_table_column(
             let mut expanded = cell.clone();
             expanded.column_span += 1;
             expanded.updated_at = now;
+            covered.extend(cell.row..cell.row + cell.row_span);
             cells_to_update.push(expanded);
         }
     }
@@ -116,7 +119,7 @@ fn execute_insert_table_column(
     // their blocks so we can mirror them into the rope after the entity
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.rows as usize);
-    for r in 0..table.rows {
+    for r in (0..table.rows).filter(|r| !covered.contains(r)) {
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -181,7 +184,7 @@ fn execute_insert_table_column(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.rows;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -209,7 +212,7 @@ fn execute_insert_table_column(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.rows;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 36e3662..33e584c 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -93,6 +93,8 @@ fn execute_insert_table_row(
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    // The columns whose place in the new row an expanded cell already takes
+    let mut covered: std::collections::HashSet<i64> = std::collections::HashSet::new();
     for cell in &cells {
         if cell.row >= dto.row_index {
             // Cell starts at or after the insertion point — shift it down
@@ -105,6 +107,7 @@ fn execute_insert_table_row(
             let mut expanded = cell.clone();
             expanded.row_span += 1;
             expanded.updated_at = now;
+            covered.extend(cell.column..cell.column + cell.column_span);
             cells_to_update.push(expanded);
         }
     }
@@ -116,7 +119,7 @@ fn execute_insert_table_row(
     // so we can mirror them into the global rope after the entity
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.columns as usize);
-    for c in 0..table.columns {
+    for c in (0..table.columns).filter(|c| !covered.contains(c)) {
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -179,7 +182,7 @@ fn execute_insert_table_row(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.columns;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -207,7 +210,7 @@ fn execute_insert_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.columns;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From 1d8d596f5621b3dd5e6f41a3c0398f9d03a11bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 25/95] fix: redo of a table removal brings the same state back

---
 .../src/use_cases/remove_table_uc.rs            | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 5ae0cf3..7043f3c 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -39,7 +39,7 @@ pub trait RemoveTableUnitOfWorkTrait: CommandUnitOfWork {}
 pub struct RemoveTableUseCase {
     uow_factory: Box<dyn RemoveTableUnitOfWorkFactoryTrait>,
     undo_snapshot: Option<EntityTreeSnapshot>,
-    last_dto: Option<RemoveTableDto>,
+    redo_snapshot: Option<EntityTreeSnapshot>,
 }
 
 fn execute_remove_table(
@@ -218,7 +218,7 @@ impl RemoveTableUseCase {
         RemoveTableUseCase {
             uow_factory,
             undo_snapshot: None,
-            last_dto: None,
+            redo_snapshot: None,
         }
     }
 
@@ -228,7 +228,6 @@ impl RemoveTableUseCase {
 
         let snapshot = execute_remove_table(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
-        self.last_dto = Some(dto.clone());
 
         uow.commit()?;
         Ok(())
@@ -245,22 +244,24 @@ impl UndoRedoCommand for RemoveTableUseCase {
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
+        // Redo brings this exact state back: re-executing could allocate new
+        // entity ids, and later commands on the redo stack refer to these ones.
+        self.redo_snapshot = Some(uow.snapshot_document(&[])?);
         uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        let dto = self
-            .last_dto
+        let snapshot = self
+            .redo_snapshot
             .as_ref()
-            .ok_or_else(|| anyhow!("No DTO available for redo"))?
+            .ok_or_else(|| anyhow!("No snapshot available for redo"))?
             .clone();
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
-        let snapshot = execute_remove_table(&mut uow, &dto)?;
-        self.undo_snapshot = Some(snapshot);
+        uow.restore_document(&snapshot)?;
         uow.commit()?;
         Ok(())
     }
-- 
2.43.0


From a28094d765f4a50d6bcf40ce104ff416a1f87fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 26/95] fix: an edit that fails after deleting the selection
 leaves the document and the open edit block as they were

---
 crates/common/src/undo_redo.rs  |  33 ++++-
 crates/public_api/src/cursor.rs | 208 ++++++++++++--------------------
 2 files changed, 105 insertions(+), 136 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 1fe132a..bea9b80 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -118,6 +118,15 @@ impl CompositeCommand {
         self.commands.push(command);
     }
 
+    /// Undoes and drops the commands added after the first `len` ones.
+    fn rewind(&mut self, len: usize) {
+        while self.commands.len() > len {
+            if let Some(mut command) = self.commands.pop() {
+                let _ = command.undo();
+            }
+        }
+    }
+
     /// Returns true if this composite contains no commands.
     pub fn is_empty(&self) -> bool {
         self.commands.is_empty()
@@ -203,6 +212,8 @@ pub struct UndoRedoManager {
     next_stack_id: u64,
     in_progress_composite: Option<CompositeCommand>,
     composite_nesting_level: usize,
+    /// How many commands the composite held at each open `begin_composite`.
+    composite_starts: Vec<usize>,
     composite_stack_id: Option<u64>,
     event_hub: Option<Arc<EventHub>>,
 }
@@ -223,6 +234,7 @@ impl UndoRedoManager {
             next_stack_id: 1,
             in_progress_composite: None,
             composite_nesting_level: 0,
+            composite_starts: Vec::new(),
             composite_stack_id: None,
             event_hub: None,
         }
@@ -322,9 +334,10 @@ impl UndoRedoManager {
         self.composite_nesting_level += 1;
 
         // If there's no composite in progress, create one
-        if self.in_progress_composite.is_none() {
-            self.in_progress_composite = Some(CompositeCommand::new(stack_id));
-        }
+        let composite = self
+            .in_progress_composite
+            .get_or_insert_with(|| CompositeCommand::new(stack_id));
+        self.composite_starts.push(composite.commands.len());
 
         // not sure if we want to send events for composites
         if let Some(event_hub) = &self.event_hub {
@@ -346,6 +359,7 @@ impl UndoRedoManager {
         if self.composite_nesting_level > 0 {
             self.composite_nesting_level -= 1;
         }
+        self.composite_starts.pop();
 
         // Only end the composite if we're at the outermost level
         if self.composite_nesting_level == 0 {
@@ -360,6 +374,7 @@ impl UndoRedoManager {
                 stack.undo_stack.push(Box::new(composite));
                 stack.redo_stack.clear();
             }
+            self.composite_stack_id = None;
             // not sure if we want to send events for composites
             if let Some(event_hub) = &self.event_hub {
                 event_hub.send_event(Event {
@@ -371,6 +386,8 @@ impl UndoRedoManager {
         }
     }
 
+    /// Cancels the innermost composite: the commands executed since its
+    /// `begin_composite` are undone and dropped. Enclosing composites go on.
     pub fn cancel_composite(&mut self) {
         // Decrement the nesting level
         if self.composite_nesting_level > 0 {
@@ -378,12 +395,15 @@ impl UndoRedoManager {
         }
 
         // Undo any sub-commands that were already executed in this composite
+        let start = self.composite_starts.pop().unwrap_or(0);
         if let Some(ref mut composite) = self.in_progress_composite {
-            let _ = composite.undo();
+            composite.rewind(start);
         }
 
-        self.in_progress_composite = None;
-        self.composite_stack_id = None;
+        if self.composite_nesting_level == 0 {
+            self.in_progress_composite = None;
+            self.composite_stack_id = None;
+        }
 
         // not sure if we want to send events for composites
         if let Some(event_hub) = &self.event_hub {
@@ -486,6 +506,7 @@ impl UndoRedoManager {
         }
         self.in_progress_composite = None;
         self.composite_nesting_level = 0;
+        self.composite_starts.clear();
     }
 
     /// Creates a new undo/redo stack and returns its ID.
diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8d7be8e..e2b7564 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -24,6 +24,30 @@ use crate::{BlockFormat, FrameFormat, MoveMode, MoveOperation, SelectionType, Te
 
 use crate::document::get_main_frame_id;
 
+/// Delete the text between `pos` and `anchor` and run `insert` at the position
+/// that leaves, as a single undo unit. When either step fails, the document is
+/// what it was before.
+fn replace_selection<T>(
+    inner: &TextDocumentInner,
+    pos: usize,
+    anchor: usize,
+    insert: impl FnOnce(usize) -> Result<T>,
+) -> Result<T> {
+    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
+    let del_dto = frontend::document_editing::DeleteTextDto {
+        position: to_i64(pos),
+        anchor: to_i64(anchor),
+    };
+    let result = document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &del_dto)
+        .and_then(|deleted| insert(to_usize(deleted.new_position)));
+    if result.is_ok() {
+        undo_redo_commands::end_composite(&inner.ctx);
+    } else {
+        undo_redo_commands::cancel_composite(&inner.ctx);
+    }
+    result
+}
+
 /// Compute the maximum valid cursor position from document stats.
 ///
 /// Cursor positions include block separators (one between each pair of adjacent
@@ -408,32 +432,18 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_dto = frontend::document_editing::InsertTextDto {
-                        position: to_i64(del_pos),
-                        anchor: to_i64(del_pos),
-                        text: text.into(),
-                    };
-                    let ins_result = document_editing_commands::insert_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &ins_dto,
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    replace_selection(&inner, pos, anchor, |del_pos| {
+                        let ins_dto = frontend::document_editing::InsertTextDto {
+                            position: to_i64(del_pos),
+                            anchor: to_i64(del_pos),
+                            text: text.into(),
+                        };
+                        document_editing_commands::insert_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &ins_dto,
+                        )
+                    })?
                 }
                 Err(e) => return Err(e),
             };
@@ -479,27 +489,13 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_result = document_editing_commands::insert_formatted_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &make_dto(del_pos, del_pos),
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    replace_selection(&inner, pos, anchor, |del_pos| {
+                        document_editing_commands::insert_formatted_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &make_dto(del_pos, del_pos),
+                        )
+                    })?
                 }
                 Err(e) => return Err(e),
             };
@@ -525,36 +521,20 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                // Selection active: delete first, then split (Word convention)
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            // Selection active: delete first, then split (Word convention)
+            let insert = |insert_pos: usize| {
+                let dto = frontend::document_editing::InsertBlockDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
+                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)
             };
-
-            let dto = frontend::document_editing::InsertBlockDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
+            let result = if pos != anchor {
+                replace_selection(&inner, pos, anchor, insert)?
+            } else {
+                insert(pos)?
             };
-            let result =
-                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+            let removed = pos.max(anchor) - pos.min(anchor);
 
             let edit_pos = pos.min(anchor);
             self.finish_edit(
@@ -588,36 +568,20 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let insert = |insert_pos: usize| {
+                let dto = frontend::document_editing::InsertFragmentDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    fragment_data: fragment.raw_data().into(),
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
+                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)
             };
-
-            let dto = frontend::document_editing::InsertFragmentDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                fragment_data: fragment.raw_data().into(),
+            let result = if pos != anchor {
+                replace_selection(&inner, pos, anchor, insert)?
+            } else {
+                insert(pos)?
             };
-            let result =
-                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+            let removed = pos.max(anchor) - pos.min(anchor);
 
             let edit_pos = pos.min(anchor);
             self.finish_edit(
@@ -689,38 +653,22 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let insert = |insert_pos: usize| {
+                let dto = frontend::document_editing::InsertImageDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    image_name: name.into(),
+                    width: width as i64,
+                    height: height as i64,
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
+                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)
             };
-
-            let dto = frontend::document_editing::InsertImageDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                image_name: name.into(),
-                width: width as i64,
-                height: height as i64,
+            let result = if pos != anchor {
+                replace_selection(&inner, pos, anchor, insert)?
+            } else {
+                insert(pos)?
             };
-            let result =
-                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+            let removed = pos.max(anchor) - pos.min(anchor);
 
             let edit_pos = pos.min(anchor);
             self.finish_edit_ext(
-- 
2.43.0


From 64e22bd184fc42070e370a74898ed27936294268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:05 +0000
Subject: [PATCH 27/95] fix: every change of undo/redo availability is
 announced

---
 crates/public_api/src/cursor.rs   |  8 +++++--
 crates/public_api/src/document.rs | 39 ++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index e2b7564..c1cd494 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1951,8 +1951,12 @@ impl TextCursor {
 
     /// End the current edit block.
     pub fn end_edit_block(&self) {
-        let inner = self.doc.lock();
-        undo_redo_commands::end_composite(&inner.ctx);
+        let queued = {
+            let mut inner = self.doc.lock();
+            undo_redo_commands::end_composite(&inner.ctx);
+            self.queue_undo_redo_event(&mut inner)
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     /// Alias for [`begin_edit_block`](Self::begin_edit_block).
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 60e491e..b181ce6 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -749,11 +749,8 @@ impl TextDocument {
                 });
                 inner.check_block_count_changed();
                 inner.check_flow_changed();
-                let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
-                let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
-                inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
             }
-            (count, inner.take_queued_events())
+            (count, queue_undo_redo_changed(&mut inner))
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(count)
@@ -787,6 +784,9 @@ impl TextDocument {
             -1,
         )?;
         inner.resource_cache.insert(name.to_string(), created.id);
+        let queued = queue_undo_redo_changed(&mut inner);
+        drop(inner);
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -876,8 +876,12 @@ impl TextDocument {
 
     /// Clear all undo/redo history.
     pub fn clear_undo_redo(&self) {
-        let inner = self.inner.lock();
-        undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+        let queued = {
+            let mut inner = self.inner.lock();
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            queue_undo_redo_changed(&mut inner)
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     // ── Modified state ───────────────────────────────────────
@@ -914,12 +918,15 @@ impl TextDocument {
 
     /// Set the document title.
     pub fn set_title(&self, title: &str) -> Result<()> {
-        let inner = self.inner.lock();
+        let mut inner = self.inner.lock();
         let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
             .ok_or_else(|| anyhow::anyhow!("document not found"))?;
         let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
         update.title = title.into();
         document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = queue_undo_redo_changed(&mut inner);
+        drop(inner);
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -935,12 +942,15 @@ impl TextDocument {
 
     /// Set the text direction.
     pub fn set_text_direction(&self, direction: TextDirection) -> Result<()> {
-        let inner = self.inner.lock();
+        let mut inner = self.inner.lock();
         let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
             .ok_or_else(|| anyhow::anyhow!("document not found"))?;
         let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
         update.text_direction = direction;
         document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = queue_undo_redo_changed(&mut inner);
+        drop(inner);
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -956,12 +966,15 @@ impl TextDocument {
 
     /// Set the default wrap mode.
     pub fn set_default_wrap_mode(&self, mode: WrapMode) -> Result<()> {
-        let inner = self.inner.lock();
+        let mut inner = self.inner.lock();
         let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
             .ok_or_else(|| anyhow::anyhow!("document not found"))?;
         let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
         update.default_wrap_mode = mode;
         document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = queue_undo_redo_changed(&mut inner);
+        drop(inner);
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -1124,6 +1137,14 @@ fn compute_text_edit(before: &str, after: &str) -> (usize, usize, usize) {
     (prefix_len, removed, added)
 }
 
+/// Queue an `UndoRedoChanged` event and return all queued events for dispatch.
+fn queue_undo_redo_changed(inner: &mut TextDocumentInner) -> crate::inner::QueuedEvents {
+    let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
+    let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
+    inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
+    inner.take_queued_events()
+}
+
 /// Compare block state before and after undo/redo and emit
 /// ContentsChanged / FormatChanged events for affected regions.
 fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlockState]) {
-- 
2.43.0


From 7e7bb12c3e1eae3c899739837d2e3368b4293023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 28/95] fix: a deletion keeps a nested frame that still holds a
 table

---
 .../src/use_cases/delete_text_uc.rs           | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index cc4e020..3f087b6 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -458,8 +458,24 @@ fn execute_delete(
                         if sf.table.is_some() {
                             continue;
                         }
-                        let blk_ids =
-                            uow.get_frame_relationship(&sf_id, &FrameRelationshipField::Blocks)?;
+                        // A frame without blocks of its own may still hold a
+                        // table or another frame.
+                        let get_tcf = |table_id: &EntityId| -> anyhow::Result<Vec<EntityId>> {
+                            let cids = uow
+                                .get_table_relationship(table_id, &TableRelationshipField::Cells)?;
+                            let cells = uow.get_table_cell_multi(&cids)?;
+                            Ok(cells
+                                .into_iter()
+                                .flatten()
+                                .filter_map(|c| c.cell_frame)
+                                .collect())
+                        };
+                        let blk_ids = collect_block_ids_recursive(
+                            &|id| uow.get_frame(id),
+                            &|id, field| uow.get_frame_relationship(id, field),
+                            &get_tcf,
+                            &sf_id,
+                        )?;
                         if blk_ids.is_empty() {
                             sub_frames_to_remove.push(sf_id);
                         }
-- 
2.43.0


From 7d70524b392a6c414ee7de83b7a9b0d587619cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:14 +0000
Subject: [PATCH 29/95] fix: deleting across a table inside a nested frame
 removes its place in that frame

---
 .../src/use_cases/delete_text_uc.rs           | 68 ++++++++++---------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 3f087b6..34e502a 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -292,7 +292,6 @@ fn execute_delete(
             uow.update_frame(&updated_frame)?;
         }
 
-        let mut tables_to_remove: Vec<EntityId> = Vec::new();
         for &tid in &table_ids {
             let cell_ids = uow.get_table_relationship(&tid, &TableRelationshipField::Cells)?;
             let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
@@ -328,45 +327,41 @@ fn execute_delete(
                     uow.remove_table_cell(&c.id)?;
                 }
 
-                let root_frame = uow
-                    .get_frame(&frame_id)?
-                    .ok_or_else(|| anyhow!("Root frame not found"))?;
-                for &entry in &root_frame.child_order {
-                    if entry < 0 {
+                // The anchor lies in the root frame or in a nested one.
+                for fid in
+                    uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?
+                {
+                    let Some(parent) = uow.get_frame(&fid)? else {
+                        continue;
+                    };
+                    let mut anchor_ids = Vec::new();
+                    for &entry in parent.child_order.iter().filter(|e| **e < 0) {
                         let anchor_id = (-entry) as EntityId;
-                        if let Some(anchor) = uow.get_frame(&anchor_id)?
-                            && anchor.table == Some(tid)
+                        if uow
+                            .get_frame(&anchor_id)?
+                            .is_some_and(|anchor| anchor.table == Some(tid))
                         {
-                            uow.remove_frame(&anchor_id)?;
-                            break;
+                            anchor_ids.push(anchor_id);
                         }
                     }
+                    if anchor_ids.is_empty() {
+                        continue;
+                    }
+                    let mut updated = parent.clone();
+                    updated
+                        .child_order
+                        .retain(|e| *e >= 0 || !anchor_ids.contains(&((-*e) as EntityId)));
+                    updated.updated_at = now;
+                    uow.update_frame(&updated)?;
+                    for anchor_id in &anchor_ids {
+                        uow.remove_frame(anchor_id)?;
+                    }
                 }
 
                 uow.remove_table(&tid)?;
-                tables_to_remove.push(tid);
             }
         }
 
-        if !tables_to_remove.is_empty() {
-            let root_frame = uow
-                .get_frame(&frame_id)?
-                .ok_or_else(|| anyhow!("Root frame not found"))?;
-            let mut updated_root = root_frame.clone();
-            updated_root.child_order.retain(|entry| {
-                if *entry < 0 {
-                    let anchor_id = (-entry) as EntityId;
-                    !tables_to_remove
-                        .iter()
-                        .any(|_| uow.get_frame(&anchor_id).ok().flatten().is_none())
-                } else {
-                    true
-                }
-            });
-            updated_root.updated_at = now;
-            uow.update_frame(&updated_root)?;
-        }
-
         // ── Handle non-cell blocks in the selection range ──────────
         let mut non_cell_blocks_to_remove: Vec<EntityId> = Vec::new();
         let mut first_non_cell: Option<&Block> = None;
@@ -483,8 +478,17 @@ fn execute_delete(
                 }
             }
             if !sub_frames_to_remove.is_empty() {
-                for &sf_id in &sub_frames_to_remove {
-                    uow.remove_frame(&sf_id)?;
+                let mut pending = sub_frames_to_remove.clone();
+                while let Some(sf_id) = pending.pop() {
+                    if let Some(sf) = uow.get_frame(&sf_id)? {
+                        pending.extend(
+                            sf.child_order
+                                .iter()
+                                .filter(|e| **e < 0)
+                                .map(|e| (-*e) as EntityId),
+                        );
+                        uow.remove_frame(&sf_id)?;
+                    }
                 }
                 let mut updated_root = uow
                     .get_frame(&frame_id)?
-- 
2.43.0


From 2854f4a280fc38c5c48e6e8bc27f306026c86ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:54 +0000
Subject: [PATCH 30/95] fix: cells are not merged across part of an already
 merged cell

---
 .../src/use_cases/merge_table_cells_uc.rs             | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index 84d5215..75363ad 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -118,9 +118,14 @@ fn execute_merge_table_cells(
         })
         .collect();
 
-    // Validate: no cell in the range already has row_span > 1 or column_span > 1
-    for cell in &cells_in_range {
-        if cell.row_span > 1 || cell.column_span > 1 {
+    // Validate: no cell that reaches into the range already has row_span > 1 or
+    // column_span > 1
+    for cell in &cells {
+        let reaches_range = cell.row <= dto.end_row
+            && cell.row + cell.row_span.max(1) > dto.start_row
+            && cell.column <= dto.end_column
+            && cell.column + cell.column_span.max(1) > dto.start_column;
+        if reaches_range && (cell.row_span > 1 || cell.column_span > 1) {
             return Err(anyhow!(
                 "Cell at row={}, column={} already has span (row_span={}, column_span={}). Cannot merge already-merged cells.",
                 cell.row,
-- 
2.43.0


From 533167e14411e9f977e967387fecc4a565bf3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:54 +0000
Subject: [PATCH 31/95] fix: pasting a table keeps the further blocks of its
 cells in place

---
 .../src/use_cases/insert_fragment_uc.rs                | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 17e1118..2395426 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -525,6 +525,11 @@ fn insert_table_fragment(
                         ..Default::default()
                     };
                     let created_extra = uow.create_block(&extra_block, cell_frame_id, -1)?;
+                    let mut cell_frame = uow
+                        .get_frame(&cell_frame_id)?
+                        .ok_or_else(|| anyhow!("Cell frame not found"))?;
+                    cell_frame.child_order.push(created_extra.id as i64);
+                    uow.update_frame(&cell_frame)?;
                     write_block_state(uow, created_extra.id, xruns, ximages);
                     this_cell_blocks.push((created_extra.id, extra_frag.plain_text.clone()));
                     current_pos += extra_len + 1;
@@ -1170,6 +1175,11 @@ fn insert_mixed_fragment(
                             };
                             let created_extra =
                                 uow.create_block(&extra_block, cell_frame_id, -1)?;
+                            let mut cell_frame = uow
+                                .get_frame(&cell_frame_id)?
+                                .ok_or_else(|| anyhow!("Cell frame not found"))?;
+                            cell_frame.child_order.push(created_extra.id as i64);
+                            uow.update_frame(&cell_frame)?;
                             write_block_state(uow, created_extra.id, xruns, ximages);
                             this_cell_blocks
                                 .push((created_extra.id, extra_frag.plain_text.clone()));
-- 
2.43.0


From 3d2ec32a01c7420f2ce60eee44dd4112d69ac523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:25 +0000
Subject: [PATCH 32/95] fix: a cursor at the end of a block is in that block,
 and moving to the previous block skips no empty block

---
 crates/public_api/src/cursor.rs | 69 +++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index c1cd494..7385c88 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -220,7 +220,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        if let Ok(info) = document_inspection_commands::get_block_at_position(&inner.ctx, &dto) {
+        if let Ok(info) = block_at_cursor(&inner, &dto) {
             pos == to_usize(info.block_start)
         } else {
             false
@@ -234,7 +234,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        if let Ok(info) = document_inspection_commands::get_block_at_position(&inner.ctx, &dto) {
+        if let Ok(info) = block_at_cursor(&inner, &dto) {
             pos == to_usize(info.block_start) + to_usize(info.block_length)
         } else {
             false
@@ -271,7 +271,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+        block_at_cursor(&inner, &dto)
             .map(|info| to_usize(info.block_number))
             .unwrap_or(0)
     }
@@ -283,7 +283,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+        block_at_cursor(&inner, &dto)
             .map(|info| pos.saturating_sub(to_usize(info.block_start)))
             .unwrap_or(0)
     }
@@ -386,9 +386,7 @@ impl TextCursor {
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
-                if let Ok(info) =
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                {
+                if let Ok(info) = block_at_cursor(&inner, &dto) {
                     let start = to_usize(info.block_start);
                     let end = start + to_usize(info.block_length);
                     drop(inner);
@@ -1597,8 +1595,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        let block_info =
-            document_inspection_commands::get_block_at_position(&inner.ctx, &dto).ok()?;
+        let block_info = block_at_cursor(&inner, &dto).ok()?;
         let block = crate::text_block::TextBlock {
             doc: self.doc.clone(),
             block_id: block_info.block_id as usize,
@@ -1720,7 +1717,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_at_cursor(&inner, &dto)?;
         drop(inner);
         self.add_block_to_list(block_info.block_id as usize, list_id)
     }
@@ -1759,7 +1756,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_at_cursor(&inner, &dto)?;
         drop(inner);
         self.remove_block_from_list(block_info.block_id as usize)
     }
@@ -1789,7 +1786,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_at_cursor(&inner, &dto)?;
         let block_id = block_info.block_id as u64;
         let mut block_dto = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)?
             .ok_or_else(|| anyhow::anyhow!("block not found at position"))?;
@@ -1844,7 +1841,7 @@ impl TextCursor {
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_at_cursor(&inner, &dto)?;
         let block_id = block_info.block_id as u64;
         let block = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)?
             .ok_or_else(|| anyhow::anyhow!("block not found"))?;
@@ -2053,7 +2050,7 @@ impl TextCursor {
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                block_at_cursor(&inner, &dto)
                     .map(|info| to_usize(info.block_start))
                     .unwrap_or(pos)
             }
@@ -2062,7 +2059,7 @@ impl TextCursor {
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                block_at_cursor(&inner, &dto)
                     .map(|info| to_usize(info.block_start) + to_usize(info.block_length))
                     .unwrap_or(pos)
             }
@@ -2071,7 +2068,7 @@ impl TextCursor {
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                block_at_cursor(&inner, &dto)
                     .map(|info| {
                         // Move past current block + 1 (block separator)
                         to_usize(info.block_start) + to_usize(info.block_length) + 1
@@ -2083,16 +2080,14 @@ impl TextCursor {
                 let dto = frontend::document_inspection::GetBlockAtPositionDto {
                     position: to_i64(pos),
                 };
-                let block_start =
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                        .map(|info| to_usize(info.block_start))
-                        .unwrap_or(pos);
-                if block_start >= 2 {
-                    // Skip past the block separator (which maps to the current block)
+                let block_start = block_at_cursor(&inner, &dto)
+                    .map(|info| to_usize(info.block_start))
+                    .unwrap_or(pos);
+                if block_start > 0 {
                     let prev_dto = frontend::document_inspection::GetBlockAtPositionDto {
-                        position: to_i64(block_start - 2),
+                        position: to_i64(block_start - 1),
                     };
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &prev_dto)
+                    block_at_cursor(&inner, &prev_dto)
                         .map(|info| to_usize(info.block_start))
                         .unwrap_or(0)
                 } else {
@@ -2355,11 +2350,10 @@ impl TextCursor {
         let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-        let block_info =
-            match document_inspection_commands::get_block_at_position(&inner.ctx, &block_dto) {
-                Ok(info) => info,
-                Err(_) => return (pos, pos),
-            };
+        let block_info = match block_at_cursor(&inner, &block_dto) {
+            Ok(info) => info,
+            Err(_) => return (pos, pos),
+        };
 
         let block_start = to_usize(block_info.block_start);
         let block_length = to_usize(block_info.block_length);
@@ -2405,3 +2399,20 @@ impl TextCursor {
         (pos, pos)
     }
 }
+
+/// The block a cursor at the given position belongs to. The end of a block
+/// belongs to that block, although the separator that follows it is looked up
+/// as part of the next one.
+fn block_at_cursor(
+    inner: &TextDocumentInner,
+    dto: &frontend::document_inspection::GetBlockAtPositionDto,
+) -> Result<frontend::document_inspection::BlockInfoDto> {
+    let info = document_inspection_commands::get_block_at_position(&inner.ctx, dto)?;
+    if info.block_start > dto.position && dto.position > 0 {
+        let before = frontend::document_inspection::GetBlockAtPositionDto {
+            position: dto.position - 1,
+        };
+        return document_inspection_commands::get_block_at_position(&inner.ctx, &before);
+    }
+    Ok(info)
+}
-- 
2.43.0


From 1bf18830e3a880340182fc4163c952a41101ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 33/95] fix: set_block_format without a selection formats the
 block whose end the cursor is at

---
 .../src/use_cases/set_block_format_uc.rs                   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/document_formatting/src/use_cases/set_block_format_uc.rs b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
index 207a689..407effb 100644
--- a/crates/document_formatting/src/use_cases/set_block_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
@@ -94,9 +94,12 @@ fn execute_set_block_format(
 
         // Block overlaps the range if its text interval [block_start, block_end)
         // intersects [range_start, range_end].  Empty blocks (text_length == 0)
-        // are included when their position falls inside the range.
+        // are included when their position falls inside the range, and a
+        // cursor without selection at the end of a block is in that block.
         let overlaps = if block_char_length(block, &store) > 0 {
-            block_start <= range_end && block_end > range_start
+            block_start <= range_end
+                && (block_end > range_start
+                    || (range_start == range_end && block_end == range_start))
         } else {
             block_start >= range_start && block_start <= range_end
         };
-- 
2.43.0


From 972bddffb09d58be3ff2535fdc1c81368a1607df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 34/95] fix: insert_formatted_text leaves an unset font family
 and size unset

---
 .../src/use_cases/insert_formatted_text_uc.rs                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 063111a..b4def81 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -70,8 +70,9 @@ pub struct InsertFormattedTextUseCase {
 
 fn dto_to_character_format(dto: &InsertFormattedTextDto) -> CharacterFormat {
     CharacterFormat {
-        font_family: Some(dto.font_family.clone()),
-        font_point_size: Some(dto.font_point_size),
+        // An empty family and a size of zero mean "not set".
+        font_family: (!dto.font_family.is_empty()).then(|| dto.font_family.clone()),
+        font_point_size: (dto.font_point_size != 0).then_some(dto.font_point_size),
         font_weight: None,
         font_bold: Some(dto.font_bold),
         font_italic: Some(dto.font_italic),
-- 
2.43.0


From b8f743b2097875eefb19f75ddbc897b57ec2f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 35/95] fix: merge_selected_cells takes an anchor at the end of
 a cell as in that cell

---
 crates/public_api/src/cursor.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 7385c88..ddc1c0b 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1080,23 +1080,9 @@ impl TextCursor {
 
         // Get anchor cell
         let (_pos, anchor) = self.read_cursor();
-        let anchor_cell = {
-            // Create a temporary block handle at the anchor position
-            let inner = self.doc.lock();
-            let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                position: to_i64(anchor),
-            };
-            let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                .map_err(|_| anyhow::anyhow!("cursor anchor is not inside a table"))?;
-            let block = crate::text_block::TextBlock {
-                doc: self.doc.clone(),
-                block_id: block_info.block_id as usize,
-            };
-            drop(inner);
-            block
-                .table_cell()
-                .ok_or_else(|| anyhow::anyhow!("cursor anchor is not inside a table"))?
-        };
+        let anchor_cell = self
+            .table_cell_at(anchor)
+            .ok_or_else(|| anyhow::anyhow!("cursor anchor is not inside a table"))?;
 
         if pos_cell.table.id() != anchor_cell.table.id() {
             return Err(anyhow::anyhow!(
-- 
2.43.0


From 8747d7177643e34c75735525712226e2887878b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 36/95] fix: blocks_in_range does not overflow on a huge length

---
 crates/public_api/src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index b181ce6..9bdcb44 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -661,7 +661,7 @@ impl TextDocument {
         sorted.sort_by_key(|b| b.document_position);
 
         let range_start = position;
-        let range_end = position + length;
+        let range_end = position.saturating_add(length);
         sorted
             .iter()
             .filter(|b| {
-- 
2.43.0


From f4f68200c159f96a7f5b0c3e32ef567f2e4fbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 37/95] fix: case-insensitive search reports positions in the
 searched text itself

---
 .../src/use_cases/search_helpers.rs             | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 4828477..9f01ee4 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -63,6 +63,21 @@ pub fn build_word_boundary_set(text: &str) -> HashSet<usize> {
     set
 }
 
+/// Lowercase a string while keeping one char per char, so that a char
+/// index into the result is a char index into the original. Chars whose
+/// lowercase form is longer than one char are left as they are.
+fn lowercase_per_char(text: &str) -> String {
+    text.chars()
+        .map(|c| {
+            let mut lower = c.to_lowercase();
+            match (lower.next(), lower.next()) {
+                (Some(l), None) => l,
+                _ => c,
+            }
+        })
+        .collect()
+}
+
 /// Find all occurrences of the query in the text, respecting search options.
 /// All positions are in char indices (not byte offsets).
 /// Returns a vec of `(char_position, char_length)` for each match.
@@ -114,7 +129,7 @@ pub fn find_all_matches(
         let (search_text, search_query) = if case_sensitive {
             (full_text.to_string(), query.to_string())
         } else {
-            (full_text.to_lowercase(), query.to_lowercase())
+            (lowercase_per_char(full_text), lowercase_per_char(query))
         };
 
         // Build a char-index → byte-offset mapping for the search text
-- 
2.43.0


From d3695997300a8b380ac464a6b8eb9ac5691c987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 38/95] fix: replace_text does not replace matches that overlap
 each other

---
 .../src/use_cases/find_all_uc.rs              |  4 ++--
 .../src/use_cases/replace_text_uc.rs          |  4 ++--
 .../src/use_cases/search_helpers.rs           | 22 +++++++++++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/document_search/src/use_cases/find_all_uc.rs b/crates/document_search/src/use_cases/find_all_uc.rs
index 6b98355..4f5cd5e 100644
--- a/crates/document_search/src/use_cases/find_all_uc.rs
+++ b/crates/document_search/src/use_cases/find_all_uc.rs
@@ -1,5 +1,5 @@
 // Generated by Qleany v1.4.8 from feature_use_case.tera
-use super::search_helpers::{build_full_text_via_store, find_all_matches};
+use super::search_helpers::{build_full_text_via_store, find_separate_matches};
 use crate::FindAllDto;
 use crate::FindAllResultDto;
 use anyhow::{Result, anyhow};
@@ -70,7 +70,7 @@ impl FindAllUseCase {
 
         let full_text = build_full_text(uow.as_ref())?;
 
-        let all_matches = find_all_matches(
+        let all_matches = find_separate_matches(
             &full_text,
             &dto.query,
             dto.case_sensitive,
diff --git a/crates/document_search/src/use_cases/replace_text_uc.rs b/crates/document_search/src/use_cases/replace_text_uc.rs
index 85888c7..15a5df2 100644
--- a/crates/document_search/src/use_cases/replace_text_uc.rs
+++ b/crates/document_search/src/use_cases/replace_text_uc.rs
@@ -1,4 +1,4 @@
-use super::search_helpers::{build_full_text_via_store, find_all_matches};
+use super::search_helpers::{build_full_text_via_store, find_separate_matches};
 use crate::ReplaceResultDto;
 use crate::ReplaceTextDto;
 use anyhow::{Result, anyhow};
@@ -194,7 +194,7 @@ fn execute_replace(
 
     let (full_text, blocks) = fetch_blocks_and_build_text(uow.as_ref())?;
 
-    let all_matches = find_all_matches(
+    let all_matches = find_separate_matches(
         &full_text,
         &dto.query,
         dto.case_sensitive,
diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 9f01ee4..dbe797d 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -164,3 +164,25 @@ pub fn find_all_matches(
 
     Ok(results)
 }
+
+/// Like [`find_all_matches`], without the matches that overlap an earlier
+/// one: "aa" occurs once in "aaa". These are the matches that can all be
+/// replaced.
+pub fn find_separate_matches(
+    full_text: &str,
+    query: &str,
+    case_sensitive: bool,
+    whole_word: bool,
+    use_regex: bool,
+) -> Result<Vec<(usize, usize)>> {
+    let mut matches = find_all_matches(full_text, query, case_sensitive, whole_word, use_regex)?;
+    let mut end = 0;
+    matches.retain(|&(pos, len)| {
+        let separate = pos >= end;
+        if separate {
+            end = pos + len;
+        }
+        separate
+    });
+    Ok(matches)
+}
-- 
2.43.0


From 068f1d56aa211e9031167efb4a9dc6ee004df879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 39/95] fix: searching and replacing use the current block
 positions in documents with nested frames

---
 crates/common/src/database/rope_helpers.rs           | 12 ++++++++++++
 crates/document_search/src/use_cases/find_all_uc.rs  |  2 +-
 crates/document_search/src/use_cases/find_text_uc.rs |  2 +-
 .../document_search/src/use_cases/replace_text_uc.rs |  2 +-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index c32edb1..cc94fd1 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -107,6 +107,18 @@ pub fn rope_positions_match_flow(store: &Store) -> bool {
     indexed_block_count == total_block_count
 }
 
+/// Sort blocks in reading order, with their `document_position` brought up
+/// to date: the stored field lags behind in documents whose positions are
+/// derived from the rope.
+pub fn sort_blocks_in_flow_order(blocks: &mut [Block], store: &Store) {
+    if rope_positions_match_flow(store) {
+        for block in blocks.iter_mut() {
+            block.document_position = block_document_position(block, store);
+        }
+    }
+    blocks.sort_by_key(|b| b.document_position);
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/document_search/src/use_cases/find_all_uc.rs b/crates/document_search/src/use_cases/find_all_uc.rs
index 4f5cd5e..da108af 100644
--- a/crates/document_search/src/use_cases/find_all_uc.rs
+++ b/crates/document_search/src/use_cases/find_all_uc.rs
@@ -50,7 +50,7 @@ fn build_full_text(uow: &dyn FindAllUnitOfWorkTrait) -> Result<String> {
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    common::database::rope_helpers::sort_blocks_in_flow_order(&mut blocks, &uow.store());
 
     Ok(build_full_text_via_store(&blocks, &uow.store()))
 }
diff --git a/crates/document_search/src/use_cases/find_text_uc.rs b/crates/document_search/src/use_cases/find_text_uc.rs
index 9151dff..db3060e 100644
--- a/crates/document_search/src/use_cases/find_text_uc.rs
+++ b/crates/document_search/src/use_cases/find_text_uc.rs
@@ -50,7 +50,7 @@ fn build_full_text(uow: &dyn FindTextUnitOfWorkTrait) -> Result<String> {
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    common::database::rope_helpers::sort_blocks_in_flow_order(&mut blocks, &uow.store());
 
     Ok(build_full_text_via_store(&blocks, &uow.store()))
 }
diff --git a/crates/document_search/src/use_cases/replace_text_uc.rs b/crates/document_search/src/use_cases/replace_text_uc.rs
index 15a5df2..da47bb8 100644
--- a/crates/document_search/src/use_cases/replace_text_uc.rs
+++ b/crates/document_search/src/use_cases/replace_text_uc.rs
@@ -64,7 +64,7 @@ fn fetch_blocks_and_build_text(
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    common::database::rope_helpers::sort_blocks_in_flow_order(&mut blocks, &uow.store());
 
     // Fast path: flat single-frame doc — rope contents == full plain text.
     let full_text = rope_flat_text_if_simple(&uow.store(), frame_ids.len())
-- 
2.43.0


From 90d03b662f39ae964a81046c762a9f4e2c89b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 40/95] fix: to_plain_text lists the text of nested frames and
 cells in reading order

---
 .../src/use_cases/export_plain_text_uc.rs     | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_plain_text_uc.rs b/crates/document_io/src/use_cases/export_plain_text_uc.rs
index d0f4684..9be6712 100644
--- a/crates/document_io/src/use_cases/export_plain_text_uc.rs
+++ b/crates/document_io/src/use_cases/export_plain_text_uc.rs
@@ -2,7 +2,9 @@
 use crate::ExportPlainTextDto;
 use anyhow::{Result, anyhow};
 use common::database::QueryUnitOfWork;
-use common::database::rope_helpers::{block_content_via_store, rope_flat_text_if_simple};
+use common::database::rope_helpers::{
+    block_content_via_store, rope_flat_text_if_simple, sort_blocks_in_flow_order,
+};
 use common::entities::{Block, Document, Frame, Root};
 use common::types::{EntityId, ROOT_ENTITY_ID};
 
@@ -64,28 +66,22 @@ impl ExportPlainTextUseCase {
         // Slow path: tables or multi-frame documents require the
         // per-frame, per-block traversal because cell content lives in
         // separate byte ranges later in the rope (plan §1.6).
-        let mut all_plain_texts: Vec<String> = Vec::new();
-
+        // Nested frames and table cells lie between the blocks around them,
+        // so blocks of all frames are put in reading order together.
+        let mut blocks: Vec<Block> = Vec::new();
         for frame_id in &frame_ids {
-            // Get Block IDs from the Frame.Blocks relationship
             let block_ids = uow.get_frame_relationship(
                 frame_id,
                 &common::direct_access::frame::FrameRelationshipField::Blocks,
             )?;
-
-            if block_ids.is_empty() {
-                continue;
-            }
-
-            // Get all blocks in batch and sort by document_position
-            let blocks_opt = uow.get_block_multi(&block_ids)?;
-            let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-            blocks.sort_by_key(|b| b.document_position);
-
-            for block in &blocks {
-                all_plain_texts.push(block_content_via_store(block, &store));
-            }
+            blocks.extend(uow.get_block_multi(&block_ids)?.into_iter().flatten());
         }
+        sort_blocks_in_flow_order(&mut blocks, &store);
+
+        let all_plain_texts: Vec<String> = blocks
+            .iter()
+            .map(|block| block_content_via_store(block, &store))
+            .collect();
 
         let plain_text = all_plain_texts.join("\n");
 
-- 
2.43.0


From 51ec5208a684f7d251c78eb961ec000f402b26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 41/95] fix: the snapshot of a nested frame gives the block
 positions of the document

---
 crates/public_api/src/text_frame.rs | 32 ++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/text_frame.rs b/crates/public_api/src/text_frame.rs
index 28774c4..dc1a45b 100644
--- a/crates/public_api/src/text_frame.rs
+++ b/crates/public_api/src/text_frame.rs
@@ -237,13 +237,43 @@ pub(crate) fn build_flow_snapshot(
     };
 
     if !frame_dto.child_order.is_empty() {
-        let (elements, _) = snapshot_from_child_order(inner, &frame_dto.child_order, 0, frame_id);
+        // A nested frame starts where its first block is in the document.
+        let start_pos = first_block_position(inner, &frame_dto.child_order).unwrap_or(0);
+        let (elements, _) =
+            snapshot_from_child_order(inner, &frame_dto.child_order, start_pos, frame_id);
         elements
     } else {
         snapshot_fallback(inner, &frame_dto)
     }
 }
 
+/// Document position of the first block found in `child_order`, looking into
+/// nested frames and tables.
+fn first_block_position(inner: &TextDocumentInner, child_order: &[i64]) -> Option<usize> {
+    child_order.iter().find_map(|&entry| {
+        if entry > 0 {
+            let mut block = block_commands::get_block(&inner.ctx, &(entry as EntityId)).ok()??;
+            crate::inner::refresh_block_position(&mut block, inner.ctx.db_context.get_store());
+            return Some(to_usize(block.document_position));
+        }
+        let frame = frame_commands::get_frame(&inner.ctx, &((-entry) as EntityId)).ok()??;
+        let Some(table_id) = frame.table else {
+            return first_block_position(inner, &frame.child_order);
+        };
+        let table = table_commands::get_table(&inner.ctx, &table_id).ok()??;
+        let mut cells: Vec<_> = table
+            .cells
+            .iter()
+            .filter_map(|id| table_cell_commands::get_table_cell(&inner.ctx, id).ok()?)
+            .collect();
+        cells.sort_by_key(|c| (c.row, c.column));
+        cells.iter().find_map(|c| {
+            let frame = frame_commands::get_frame(&inner.ctx, &c.cell_frame?).ok()??;
+            first_block_position(inner, &frame.child_order)
+        })
+    })
+}
+
 /// Walk child_order, building snapshots with on-the-fly position computation.
 /// `parent_frame_id` is passed down so per-block snapshots skip the
 /// expensive `find_parent_frame` walk over every frame in the store —
-- 
2.43.0


From d9d94584aafe3a41c14a79fb680b627306b94150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 42/95] fix: find_element_at_position answers at the end of a
 block, and with the preceding element at a boundary

---
 crates/public_api/src/document.rs | 51 +++++++++++--------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 9bdcb44..3e09b01 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -428,53 +428,36 @@ impl TextDocument {
     /// belongs to the preceding element at a boundary" convention
     /// used throughout text-document.
     pub fn find_element_at_position(&self, position: usize) -> Option<(u64, usize, usize)> {
-        let block_info = self.block_at(position).ok()?;
+        let mut block_info = self.block_at(position).ok()?;
+        // The end of a block belongs to that block, but the separator behind
+        // it is looked up as part of the next one.
+        if block_info.start > position && position > 0 {
+            block_info = self.block_at(position - 1).ok()?;
+        }
         let block_start = block_info.start;
         let offset_in_block = position.checked_sub(block_start)?;
         let block = crate::text_block::TextBlock {
             doc: std::sync::Arc::clone(&self.inner),
             block_id: block_info.block_id,
         };
-        let frags = block.fragments();
-        // Walk fragments; match the fragment that contains
-        // `offset_in_block`. For a boundary position shared with the
-        // next fragment, prefer the preceding fragment (boundary
-        // belongs to the end of the previous element).
-        let mut last_text: Option<(u64, usize, usize, usize)> = None; // (id, abs_start, frag_offset, frag_length)
-        for frag in &frags {
-            match frag {
+        // The element that ends at the position or contains it; at the very
+        // start of the block, the element that starts there.
+        block.fragments().into_iter().find_map(|frag| {
+            let (start, length, element_id) = match frag {
                 crate::flow::FragmentContent::Text {
                     offset,
                     length,
                     element_id,
                     ..
-                } => {
-                    let frag_start = *offset;
-                    let frag_end = frag_start + *length;
-                    if offset_in_block >= frag_start && offset_in_block < frag_end {
-                        let abs_start = block_start + frag_start;
-                        let offset_within = offset_in_block - frag_start;
-                        return Some((*element_id, abs_start, offset_within));
-                    }
-                    // Record as a candidate for the "end-of-element"
-                    // boundary fallback (offset_in_block == frag_end).
-                    if offset_in_block == frag_end {
-                        last_text =
-                            Some((*element_id, block_start + frag_start, frag_start, *length));
-                    }
-                }
+                } => (offset, length, element_id),
                 crate::flow::FragmentContent::Image {
                     offset, element_id, ..
-                } => {
-                    if offset_in_block == *offset {
-                        return Some((*element_id, block_start + offset, 0));
-                    }
-                }
-            }
-        }
-        // Boundary fallback: position was at the end of the last text
-        // fragment we saw.
-        last_text.map(|(id, abs_start, _, length)| (id, abs_start, length))
+                } => (offset, 1, element_id),
+            };
+            let inside = offset_in_block > start && offset_in_block <= start + length;
+            let at_start = offset_in_block == 0 && start == 0;
+            (inside || at_start).then(|| (element_id, block_start + start, offset_in_block - start))
+        })
     }
 
     /// Get info about the block at a position. O(log n).
-- 
2.43.0


From d999880e393195922623e4aaaa471fe135692c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 43/95] fix: HTML import keeps text around nested blocks in
 place and starts a new block at <br>

---
 .../common/src/parser_tools/content_parser.rs | 164 +++++++++++-------
 1 file changed, 97 insertions(+), 67 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 690fc98..2d55fef 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -590,6 +590,14 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                 }
                 Node::Element(el) => {
                     let tag = el.name();
+                    if tag == "br" {
+                        // A cell is one block: keep the lines' words apart
+                        spans.push(ParsedSpan {
+                            text: " ".to_string(),
+                            ..Default::default()
+                        });
+                        continue;
+                    }
                     let mut new_state = state.clone();
                     match tag {
                         "b" | "strong" => new_state.bold = true,
@@ -797,66 +805,47 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                     return;
                 }
 
-                if tag == "blockquote" {
-                    // Blockquote is a container — recurse into children with increased depth
-                    for child in node.children() {
-                        walk_node(
-                            child,
-                            &new_state,
-                            elements,
-                            &new_list_style,
-                            bq_depth,
-                            new_list_depth,
-                            depth + 1,
-                        );
-                    }
-                } else if is_block_tag && tag != "br" {
-                    // Start collecting spans for a new block.
-                    // Use a temporary buffer so that nested block-level
-                    // elements (e.g. sub-lists inside <li>) are collected
-                    // separately and appended *after* the parent block.
+                if is_block_tag && tag != "br" {
+                    // Start collecting spans for a new block. Nested block-level
+                    // elements (e.g. sub-lists inside <li>) end it: the spans
+                    // before and behind them are blocks of their own.
+                    let is_list_item = tag == "li";
+                    let template = ParsedBlock {
+                        spans: Vec::new(),
+                        heading_level,
+                        list_style: new_list_style.clone().filter(|_| is_list_item),
+                        list_indent: if is_list_item {
+                            new_list_depth.saturating_sub(1)
+                        } else {
+                            0
+                        },
+                        is_code_block,
+                        code_language,
+                        blockquote_depth: bq_depth,
+                        line_height: css.line_height,
+                        non_breakable_lines: css.non_breakable_lines,
+                        direction: css.direction,
+                        background_color: css.background_color,
+                    };
+                    let elements_before = elements.len();
                     let mut spans: Vec<ParsedSpan> = Vec::new();
-                    let mut nested_elements: Vec<ParsedElement> = Vec::new();
                     collect_inline_spans(
                         node,
                         &new_state,
                         &mut spans,
+                        &template,
                         &new_list_style,
-                        &mut nested_elements,
+                        elements,
                         bq_depth,
                         new_list_depth,
                         depth + 1,
                     );
 
-                    let list_style_for_block = if tag == "li" {
-                        new_list_style.clone()
-                    } else {
-                        None
-                    };
-
-                    let list_indent_for_block = if tag == "li" {
-                        new_list_depth.saturating_sub(1)
-                    } else {
-                        0
-                    };
-
-                    if !spans.is_empty() || heading_level.is_some() {
-                        elements.push(ParsedElement::Block(ParsedBlock {
-                            spans,
-                            heading_level,
-                            list_style: list_style_for_block,
-                            list_indent: list_indent_for_block,
-                            is_code_block,
-                            code_language,
-                            blockquote_depth: bq_depth,
-                            line_height: css.line_height,
-                            non_breakable_lines: css.non_breakable_lines,
-                            direction: css.direction,
-                            background_color: css.background_color,
-                        }));
+                    if elements.len() > elements_before || tag == "blockquote" {
+                        flush_spans(&mut spans, &template, elements);
+                    } else if !spans.is_empty() || heading_level.is_some() {
+                        elements.push(ParsedElement::Block(ParsedBlock { spans, ..template }));
                     }
-                    // Append nested block elements after the parent block
-                    elements.append(&mut nested_elements);
                 } else if matches!(tag, "ul" | "ol" | "thead" | "tbody" | "tr") {
                     // Container elements: recurse into children
                     for child in node.children() {
@@ -930,14 +919,47 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
         }
     }
 
+    /// End the block whose spans have been collected so far. Whitespace
+    /// between block-level elements is not content.
+    fn flush_spans(
+        spans: &mut Vec<ParsedSpan>,
+        template: &ParsedBlock,
+        elements: &mut Vec<ParsedElement>,
+    ) {
+        let mut spans = std::mem::take(spans);
+        if !template.is_code_block {
+            while let Some(first) = spans.first_mut() {
+                first.text = first.text.trim_ascii_start().to_string();
+                if !first.text.is_empty() {
+                    break;
+                }
+                spans.remove(0);
+            }
+            while let Some(last) = spans.last_mut() {
+                last.text.truncate(last.text.trim_ascii_end().len());
+                if !last.text.is_empty() {
+                    break;
+                }
+                spans.pop();
+            }
+        }
+        if spans.iter().any(|span| !span.text.trim_ascii().is_empty()) {
+            elements.push(ParsedElement::Block(ParsedBlock {
+                spans,
+                ..template.clone()
+            }));
+        }
+    }
+
     /// Collect inline spans from a block-level element's children.
-    /// If a nested block-level element is encountered, it is flushed as a
-    /// separate block.
+    /// If a nested block-level element is encountered, the spans so far are
+    /// flushed as a block like `template`, followed by that element's blocks.
     #[allow(clippy::too_many_arguments)]
     fn collect_inline_spans(
         node: ego_tree::NodeRef<Node>,
         state: &FmtState,
         spans: &mut Vec<ParsedSpan>,
+        template: &ParsedBlock,
         current_list_style: &Option<ListStyle>,
         elements: &mut Vec<ParsedElement>,
         blockquote_depth: u32,
@@ -999,14 +1021,14 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                     );
 
                     if tag == "br" {
-                        // br within a block: treat as splitting into new block
-                        // For simplicity, just add a newline to current span
-                        spans.push(ParsedSpan {
-                            text: String::new(),
-                            ..Default::default()
-                        });
+                        // br within a block starts a new block
+                        elements.push(ParsedElement::Block(ParsedBlock {
+                            spans: std::mem::take(spans),
+                            ..template.clone()
+                        }));
                     } else if nested_block || tag == "table" {
                         // Flush as separate element
+                        flush_spans(spans, template, elements);
                         walk_node(
                             child,
                             &new_state,
@@ -1022,6 +1044,7 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                             child,
                             &new_state,
                             spans,
+                            template,
                             current_list_style,
                             elements,
                             blockquote_depth,
@@ -1039,30 +1062,37 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
     // Treat the root element as a block-level container so that
     // top-level inline elements (e.g. `<b>Bold</b> <em>Italic</em>`)
     // are grouped into a single block instead of becoming separate blocks.
+    let root_template = ParsedBlock {
+        spans: Vec::new(),
+        heading_level: None,
+        list_style: None,
+        list_indent: 0,
+        is_code_block: false,
+        code_language: None,
+        blockquote_depth: 0,
+        line_height: None,
+        non_breakable_lines: None,
+        direction: None,
+        background_color: None,
+    };
     let mut root_spans: Vec<ParsedSpan> = Vec::new();
     collect_inline_spans(
         *root,
         &initial_state,
         &mut root_spans,
+        &root_template,
         &None,
         &mut elements,
         0,
         0,
         0,
     );
-    if !root_spans.is_empty() {
+    if !elements.is_empty() {
+        flush_spans(&mut root_spans, &root_template, &mut elements);
+    } else if !root_spans.is_empty() {
         elements.push(ParsedElement::Block(ParsedBlock {
             spans: root_spans,
-            heading_level: None,
-            list_style: None,
-            list_indent: 0,
-            is_code_block: false,
-            code_language: None,
-            blockquote_depth: 0,
-            line_height: None,
-            non_breakable_lines: None,
-            direction: None,
-            background_color: None,
+            ..root_template
         }));
     }
 
-- 
2.43.0


From 70004a953a6b840372f1be1eeee5a8525b1e1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 44/95] fix: Markdown export escapes backticks, angle brackets
 and ampersands in text

---
 crates/document_io/src/use_cases/export_markdown_uc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 2dfe93f..c71e6c8 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -534,7 +534,7 @@ fn escape_markdown(s: &str) -> String {
     for c in s.chars() {
         match c {
             '\\' | '*' | '_' | '{' | '}' | '[' | ']' | '(' | ')' | '#' | '+' | '-' | '.' | '!'
-            | '|' | '~' | '>' => {
+            | '|' | '~' | '>' | '<' | '`' | '&' => {
                 result.push('\\');
                 result.push(c);
             }
-- 
2.43.0


From fc162a3f1f3f51bce94e25e62538018f6fe460bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 45/95] fix: HTML export escapes the background colour of a
 block

---
 crates/document_io/src/use_cases/export_html_uc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index f475797..dad0a13 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -349,7 +349,7 @@ impl ExportHtmlUseCase {
                     styles.push("direction: rtl".into());
                 }
                 if let Some(ref c) = block.fmt_background_color {
-                    styles.push(format!("background-color: {}", c));
+                    styles.push(format!("background-color: {}", escape_html(c)));
                 }
                 let style_attr = if styles.is_empty() {
                     String::new()
-- 
2.43.0


From 9b65ce59d8c73927e1a2d59ae6492b197bb339e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 46/95] fix: HTML import rounds the line height instead of
 truncating it

---
 crates/common/src/parser_tools/content_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 2d55fef..45f6f59 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -514,7 +514,7 @@ fn parse_block_styles(style: &str) -> BlockStyles {
                 "line-height" => {
                     // Try parsing as a plain number (multiplier)
                     if let Ok(v) = val.parse::<f64>() {
-                        result.line_height = Some((v * 1000.0) as i64);
+                        result.line_height = Some((v * 1000.0).round() as i64);
                     }
                 }
                 "white-space" if val == "pre" || val == "nowrap" || val == "pre-wrap" => {
-- 
2.43.0


From b61f5823aeae6319acbfc94d15c1907189b65577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 47/95] fix: HTML export keeps adjacent lists apart, each of
 its own kind

---
 crates/document_io/src/use_cases/export_html_uc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index dad0a13..b4df246 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -312,7 +312,8 @@ impl ExportHtmlUseCase {
                         None
                     };
 
-                    if b_list.is_some() {
+                    // An adjacent list is a list of its own, of its own kind
+                    if b_list.is_some_and(|l| l.id == list_entity.id) {
                         let inline_html = self.render_inline_html(uow, b)?;
                         list_items.push(format!("<li>{}</li>", inline_html));
                         i += 1;
-- 
2.43.0


From 65d5ec16067858ad276ed9804d511fa2500f93d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 48/95] fix: a table imported behind a blockquote is not put
 into the blockquote

---
 .../common/src/parser_tools/content_parser.rs | 16 +++-
 .../src/use_cases/import_html_uc.rs           | 77 ++++++++++---------
 .../src/use_cases/import_markdown_uc.rs       | 77 ++++++++++---------
 3 files changed, 93 insertions(+), 77 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 45f6f59..ff2a98e 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -25,6 +25,8 @@ pub struct ParsedTable {
     pub header_rows: usize,
     /// All rows (header + body), each containing cells with their inline spans.
     pub rows: Vec<Vec<ParsedTableCell>>,
+    /// Number of blockquotes around the table.
+    pub blockquote_depth: u32,
 }
 
 /// A parsed element: either a block or a table.
@@ -303,6 +305,7 @@ pub fn parse_markdown(markdown: &str) -> Vec<ParsedElement> {
                 elements.push(ParsedElement::Table(ParsedTable {
                     header_rows: table_header_rows,
                     rows: std::mem::take(&mut table_rows),
+                    blockquote_depth,
                 }));
                 in_table = false;
             }
@@ -620,7 +623,10 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
     }
 
     /// Parse a `<table>` element into a ParsedTable.
-    fn parse_table_element(table_node: ego_tree::NodeRef<Node>) -> ParsedTable {
+    fn parse_table_element(
+        table_node: ego_tree::NodeRef<Node>,
+        blockquote_depth: u32,
+    ) -> ParsedTable {
         let mut rows: Vec<Vec<ParsedTableCell>> = Vec::new();
         let mut header_rows: usize = 0;
 
@@ -670,7 +676,11 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
             header_rows = 1;
         }
 
-        ParsedTable { header_rows, rows }
+        ParsedTable {
+            header_rows,
+            rows,
+            blockquote_depth,
+        }
     }
 
     fn walk_node(
@@ -777,7 +787,7 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
 
                 if tag == "table" {
                     // Parse table structure into a ParsedTable
-                    let parsed_table = parse_table_element(node);
+                    let parsed_table = parse_table_element(node, bq_depth);
                     if !parsed_table.rows.is_empty() {
                         elements.push(ParsedElement::Table(parsed_table));
                     }
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 3f7a388..f9bde5e 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -175,45 +175,48 @@ impl LongOperation for ImportHtmlUseCase {
                 return Err(anyhow!("Operation was cancelled"));
             }
 
-            match parsed_element {
-                ParsedElement::Block(parsed_block) => {
-                    let bq_depth = parsed_block.blockquote_depth;
-
-                    // Close blockquote frames if depth decreased
-                    while current_bq_depth > bq_depth && frame_stack.len() > 1 {
-                        let finished = frame_stack.pop().unwrap();
-                        let mut frame_entity = uow
-                            .get_frame(&finished.frame_id)?
-                            .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
-                        frame_entity.child_order = finished.child_order;
-                        uow.update_frame(&frame_entity)?;
-                        current_bq_depth -= 1;
-                        list_grouper.reset();
-                    }
+            let bq_depth = match parsed_element {
+                ParsedElement::Block(block) => block.blockquote_depth,
+                ParsedElement::Table(table) => table.blockquote_depth,
+            };
+
+            // Close blockquote frames if depth decreased
+            while current_bq_depth > bq_depth && frame_stack.len() > 1 {
+                let finished = frame_stack.pop().unwrap();
+                let mut frame_entity = uow
+                    .get_frame(&finished.frame_id)?
+                    .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
+                frame_entity.child_order = finished.child_order;
+                uow.update_frame(&frame_entity)?;
+                current_bq_depth -= 1;
+                list_grouper.reset();
+            }
 
-                    // Open blockquote frames if depth increased
-                    while current_bq_depth < bq_depth {
-                        let parent_frame_id = frame_stack.last().unwrap().frame_id;
-                        let bq_frame = Frame {
-                            fmt_is_blockquote: Some(true),
-                            fmt_position: Some(FramePosition::InFlow),
-                            parent_frame: Some(parent_frame_id),
-                            ..Frame::default()
-                        };
-                        let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
-                        frame_stack
-                            .last_mut()
-                            .unwrap()
-                            .child_order
-                            .push(-(created_bq.id as i64));
-                        frame_stack.push(FrameState {
-                            frame_id: created_bq.id,
-                            child_order: Vec::new(),
-                        });
-                        current_bq_depth += 1;
-                        list_grouper.reset();
-                    }
+            // Open blockquote frames if depth increased
+            while current_bq_depth < bq_depth {
+                let parent_frame_id = frame_stack.last().unwrap().frame_id;
+                let bq_frame = Frame {
+                    fmt_is_blockquote: Some(true),
+                    fmt_position: Some(FramePosition::InFlow),
+                    parent_frame: Some(parent_frame_id),
+                    ..Frame::default()
+                };
+                let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
+                frame_stack
+                    .last_mut()
+                    .unwrap()
+                    .child_order
+                    .push(-(created_bq.id as i64));
+                frame_stack.push(FrameState {
+                    frame_id: created_bq.id,
+                    child_order: Vec::new(),
+                });
+                current_bq_depth += 1;
+                list_grouper.reset();
+            }
 
+            match parsed_element {
+                ParsedElement::Block(parsed_block) => {
                     let (plain_text, format_runs) =
                         format_runs_from_spans(&parsed_block.spans, parsed_block.is_code_block);
                     let line_len = plain_text.chars().count() as i64;
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index a601974..a8a8414 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -158,45 +158,48 @@ fn import_parsed_elements(
             return Err(anyhow!("Operation was cancelled"));
         }
 
-        match parsed_element {
-            ParsedElement::Block(parsed_block) => {
-                let bq_depth = parsed_block.blockquote_depth;
-
-                // Close blockquote frames if depth decreased
-                while current_bq_depth > bq_depth && frame_stack.len() > 1 {
-                    let finished = frame_stack.pop().unwrap();
-                    let mut frame_entity = uow
-                        .get_frame(&finished.frame_id)?
-                        .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
-                    frame_entity.child_order = finished.child_order;
-                    uow.update_frame(&frame_entity)?;
-                    current_bq_depth -= 1;
-                    list_grouper.reset();
-                }
+        let bq_depth = match parsed_element {
+            ParsedElement::Block(block) => block.blockquote_depth,
+            ParsedElement::Table(table) => table.blockquote_depth,
+        };
+
+        // Close blockquote frames if depth decreased
+        while current_bq_depth > bq_depth && frame_stack.len() > 1 {
+            let finished = frame_stack.pop().unwrap();
+            let mut frame_entity = uow
+                .get_frame(&finished.frame_id)?
+                .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
+            frame_entity.child_order = finished.child_order;
+            uow.update_frame(&frame_entity)?;
+            current_bq_depth -= 1;
+            list_grouper.reset();
+        }
 
-                // Open blockquote frames if depth increased
-                while current_bq_depth < bq_depth {
-                    let parent_frame_id = frame_stack.last().unwrap().frame_id;
-                    let bq_frame = Frame {
-                        fmt_is_blockquote: Some(true),
-                        fmt_position: Some(FramePosition::InFlow),
-                        parent_frame: Some(parent_frame_id),
-                        ..Frame::default()
-                    };
-                    let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
-                    frame_stack
-                        .last_mut()
-                        .unwrap()
-                        .child_order
-                        .push(-(created_bq.id as i64));
-                    frame_stack.push(FrameState {
-                        frame_id: created_bq.id,
-                        child_order: Vec::new(),
-                    });
-                    current_bq_depth += 1;
-                    list_grouper.reset();
-                }
+        // Open blockquote frames if depth increased
+        while current_bq_depth < bq_depth {
+            let parent_frame_id = frame_stack.last().unwrap().frame_id;
+            let bq_frame = Frame {
+                fmt_is_blockquote: Some(true),
+                fmt_position: Some(FramePosition::InFlow),
+                parent_frame: Some(parent_frame_id),
+                ..Frame::default()
+            };
+            let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
+            frame_stack
+                .last_mut()
+                .unwrap()
+                .child_order
+                .push(-(created_bq.id as i64));
+            frame_stack.push(FrameState {
+                frame_id: created_bq.id,
+                child_order: Vec::new(),
+            });
+            current_bq_depth += 1;
+            list_grouper.reset();
+        }
 
+        match parsed_element {
+            ParsedElement::Block(parsed_block) => {
                 let (plain_text, format_runs) =
                     format_runs_from_spans(&parsed_block.spans, parsed_block.is_code_block);
                 let line_len = plain_text.chars().count() as i64;
-- 
2.43.0


From 50c5d5163380a241a01e96a4373b171d9f7fbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 49/95] fix: Markdown export keeps nested list items nested and
 a blockquote in one piece

---
 .../src/use_cases/export_markdown_uc.rs       | 60 ++++++++++++-------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index c71e6c8..ca4fbd3 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -120,12 +120,10 @@ impl ExportMarkdownUseCase {
 
             if let Some(ref f) = frame {
                 let frame_lines = self.render_frame_content(&*uow, f, &cell_frame_ids, "")?;
-                for line in frame_lines {
-                    if !output_parts.is_empty() {
-                        output_parts.push("\n\n".to_string());
-                    }
-                    output_parts.push(line);
+                if !output_parts.is_empty() && !frame_lines.is_empty() {
+                    output_parts.push("\n\n".to_string());
                 }
+                output_parts.extend(frame_lines);
             }
         }
 
@@ -139,7 +137,7 @@ impl ExportMarkdownUseCase {
     /// Render the content of a frame by walking its `child_order`.
     /// Positive entries are block IDs, negative entries are negated sub-frame IDs.
     /// `quote_prefix` is prepended to every output line (e.g. "> " for blockquotes).
-    /// Returns a vec of block-level strings (each is one rendered block or sub-frame output).
+    /// Returns a vec of block-level strings with the separators between them.
     fn render_frame_content(
         &self,
         uow: &dyn ExportMarkdownUnitOfWorkTrait,
@@ -151,6 +149,14 @@ impl ExportMarkdownUseCase {
         let mut prev_was_list = false;
         let mut ordered_list_counter: i64 = 0;
         let mut current_list_id: Option<EntityId> = None;
+        let mut list_offsets: Vec<usize> = Vec::new();
+
+        // A blank line inside a blockquote carries its marker, else it would end the quote
+        let separator = if quote_prefix.is_empty() {
+            "\n\n".to_string()
+        } else {
+            format!("\n{}\n", quote_prefix.trim_end())
+        };
 
         // If child_order is empty, fall back to iterating blocks directly
         let use_child_order = !frame.child_order.is_empty();
@@ -168,12 +174,13 @@ impl ExportMarkdownUseCase {
                             quote_prefix,
                             &mut ordered_list_counter,
                             &mut current_list_id,
+                            &mut list_offsets,
                         )?;
                         if !result.is_empty() {
                             if is_list_item && prev_was_list {
                                 result.push("\n".to_string());
                             } else {
-                                result.push("\n\n".to_string());
+                                result.push(separator.clone());
                             }
                         }
                         result.push(line);
@@ -196,12 +203,13 @@ impl ExportMarkdownUseCase {
                                 table_md
                             };
                             if !result.is_empty() {
-                                result.push("\n\n".to_string());
+                                result.push(separator.clone());
                             }
                             result.push(prefixed);
                             prev_was_list = false;
                             current_list_id = None;
                             ordered_list_counter = 0;
+                            list_offsets.clear();
                             continue;
                         }
 
@@ -214,15 +222,14 @@ impl ExportMarkdownUseCase {
 
                         let sub_lines =
                             self.render_frame_content(uow, sf, cell_frame_ids, &sub_prefix)?;
-                        for sub_line in sub_lines {
-                            if !result.is_empty() {
-                                result.push("\n\n".to_string());
-                            }
-                            result.push(sub_line);
+                        if !result.is_empty() && !sub_lines.is_empty() {
+                            result.push(separator.clone());
                         }
+                        result.extend(sub_lines);
                         prev_was_list = false;
                         current_list_id = None;
                         ordered_list_counter = 0;
+                        list_offsets.clear();
                     }
                 }
             }
@@ -248,12 +255,13 @@ impl ExportMarkdownUseCase {
                     quote_prefix,
                     &mut ordered_list_counter,
                     &mut current_list_id,
+                    &mut list_offsets,
                 )?;
                 if !result.is_empty() {
                     if is_list_item && prev_was_list {
                         result.push("\n".to_string());
                     } else {
-                        result.push("\n\n".to_string());
+                        result.push(separator.clone());
                     }
                 }
                 result.push(line);
@@ -273,6 +281,7 @@ impl ExportMarkdownUseCase {
         quote_prefix: &str,
         ordered_list_counter: &mut i64,
         current_list_id: &mut Option<EntityId>,
+        list_offsets: &mut Vec<usize>,
     ) -> Result<(String, bool)> {
         // Check if this is a code block
         if block.fmt_is_code_block == Some(true) {
@@ -312,6 +321,7 @@ impl ExportMarkdownUseCase {
 
             *current_list_id = None;
             *ordered_list_counter = 0;
+            list_offsets.clear();
             return Ok((code_block, false));
         }
 
@@ -342,10 +352,16 @@ impl ExportMarkdownUseCase {
         // Build the block line
         let block_line = if let Some(level) = block.fmt_heading_level {
             let prefix = "#".repeat(level as usize);
+            list_offsets.clear();
             format!("{}{} {}", quote_prefix, prefix, inline_md)
         } else if let Some(ref list_entity) = list {
-            let indent_prefix = "  ".repeat(list_entity.indent as usize);
-            match list_entity.style {
+            // An item nests in another one when it starts at that one's content
+            let level = list_entity.indent as usize;
+            list_offsets.truncate(level);
+            let offset = list_offsets.last().copied().unwrap_or(0);
+            list_offsets.resize(level, offset);
+            let indent_prefix = " ".repeat(offset);
+            let marker = match list_entity.style {
                 ListStyle::Decimal
                 | ListStyle::LowerAlpha
                 | ListStyle::UpperAlpha
@@ -358,16 +374,16 @@ impl ExportMarkdownUseCase {
                     } else {
                         *ordered_list_counter += 1;
                     }
-                    format!(
-                        "{}{}{}. {}",
-                        quote_prefix, indent_prefix, ordered_list_counter, inline_md
-                    )
+                    format!("{}. ", ordered_list_counter)
                 }
-                _ => format!("{}{}- {}", quote_prefix, indent_prefix, inline_md),
-            }
+                _ => "- ".to_string(),
+            };
+            list_offsets.push(offset + marker.len());
+            format!("{}{}{}{}", quote_prefix, indent_prefix, marker, inline_md)
         } else {
             *current_list_id = None;
             *ordered_list_counter = 0;
+            list_offsets.clear();
             format!("{}{}", quote_prefix, inline_md)
         };
 
-- 
2.43.0


From d5cb7bd7cce9e7b430a68a11c60c6178f6f8207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 50/95] fix: HTML and LaTeX export keep the blocks of a table
 cell in order

---
 crates/document_io/src/use_cases/export_html_uc.rs  | 3 ++-
 crates/document_io/src/use_cases/export_latex_uc.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index b4df246..89de14f 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -431,7 +431,8 @@ impl ExportHtmlUseCase {
                             &common::direct_access::frame::FrameRelationshipField::Blocks,
                         )?;
                         let blocks_opt = uow.get_block_multi(&block_ids)?;
-                        let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        blocks.sort_by_key(|b| b.document_position);
 
                         let mut cell_parts: Vec<String> = Vec::new();
                         for block in &blocks {
diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 7d57888..1de0593 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -470,7 +470,8 @@ impl ExportLatexUseCase {
                             &common::direct_access::frame::FrameRelationshipField::Blocks,
                         )?;
                         let blocks_opt = uow.get_block_multi(&block_ids)?;
-                        let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        blocks.sort_by_key(|b| b.document_position);
 
                         let mut cell_parts: Vec<String> = Vec::new();
                         for block in &blocks {
-- 
2.43.0


From b197bc99319654d5809005ed3ec1e7c464664d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 51/95] fix: Markdown export fences code that contains
 backticks

---
 .../src/use_cases/export_markdown_uc.rs       | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index ca4fbd3..758d617 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -303,11 +303,12 @@ impl ExportMarkdownUseCase {
                 }
             }
 
+            let fence = "`".repeat(3.max(longest_backtick_run(&raw_text) + 1));
             let code_block = if quote_prefix.is_empty() {
-                format!("```{}\n{}\n```", lang, raw_text)
+                format!("{fence}{}\n{}\n{fence}", lang, raw_text)
             } else {
                 let mut lines = Vec::new();
-                lines.push(format!("{}```{}", quote_prefix, lang));
+                lines.push(format!("{}{fence}{}", quote_prefix, lang));
                 for line in raw_text.lines() {
                     lines.push(format!("{}{}", quote_prefix, line));
                 }
@@ -315,7 +316,7 @@ impl ExportMarkdownUseCase {
                 if raw_text.is_empty() {
                     lines.push(quote_prefix.to_string());
                 }
-                lines.push(format!("{}```", quote_prefix));
+                lines.push(format!("{}{fence}", quote_prefix));
                 lines.join("\n")
             };
 
@@ -417,7 +418,13 @@ impl ExportMarkdownUseCase {
 
             // Apply formatting (innermost first)
             if elem.fmt_font_family.as_deref() == Some("monospace") {
-                formatted = format!("`{}`", formatted);
+                let ticks = "`".repeat(longest_backtick_run(&formatted) + 1);
+                let pad = if formatted.starts_with('`') || formatted.ends_with('`') {
+                    " "
+                } else {
+                    ""
+                };
+                formatted = format!("{ticks}{pad}{formatted}{pad}{ticks}");
             }
             if elem.fmt_font_strikeout == Some(true) {
                 formatted = format!("~~{}~~", formatted);
@@ -545,6 +552,11 @@ fn prefix_lines(text: &str, prefix: &str) -> String {
         .join("\n")
 }
 
+/// Length of the longest run of backticks in `text`; a code span or fence needs a longer one.
+fn longest_backtick_run(text: &str) -> usize {
+    text.split(|c| c != '`').map(str::len).max().unwrap_or(0)
+}
+
 fn escape_markdown(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
     for c in s.chars() {
-- 
2.43.0


From 002b806e8fa9478c4a98ca7d39e2fd7f60605672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 52/95] fix: HTML import fills up the short rows of a table

---
 crates/common/src/parser_tools/content_parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index ff2a98e..1267650 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -671,6 +671,14 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
 
         collect_rows(table_node, &mut rows, &mut header_rows, false);
 
+        // Every row gets as many cells as the longest one
+        let columns = rows.iter().map(|r| r.len()).max().unwrap_or(0);
+        for row in &mut rows {
+            row.resize_with(columns, || ParsedTableCell {
+                spans: vec![ParsedSpan::default()],
+            });
+        }
+
         // Tables without explicit <thead> but with <th> cells: treat first row as header
         if header_rows == 0 && !rows.is_empty() {
             header_rows = 1;
-- 
2.43.0


From a81c8b238665da8ec095e7aac47f5e3e6d3c38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 53/95] fix: A dropped subscription gets no further events

---
 crates/public_api/src/inner.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 844d6bf..2de28d8 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -19,10 +19,7 @@ use std::sync::{Arc, Weak};
 use parking_lot::Mutex;
 
 /// A batch of events paired with the callbacks to invoke for each.
-pub(crate) type QueuedEvents = Vec<(
-    crate::events::DocumentEvent,
-    Vec<Arc<dyn Fn(crate::events::DocumentEvent) + Send + Sync>>,
-)>;
+pub(crate) type QueuedEvents = Vec<(crate::events::DocumentEvent, Vec<CallbackEntry>)>;
 
 use anyhow::Result;
 use frontend::AppContext;
@@ -43,11 +40,21 @@ pub(crate) struct CursorData {
 }
 
 /// Callback entry for document event subscriptions.
+#[derive(Clone)]
 pub(crate) struct CallbackEntry {
     pub alive: Weak<AtomicBool>,
     pub callback: Arc<dyn Fn(DocumentEvent) + Send + Sync>,
 }
 
+impl CallbackEntry {
+    /// Whether the subscription is still held.
+    fn is_alive(&self) -> bool {
+        self.alive
+            .upgrade()
+            .is_some_and(|alive| alive.load(std::sync::atomic::Ordering::Relaxed))
+    }
+}
+
 /// The shared document interior, behind `Arc<Mutex<>>`.
 pub(crate) struct TextDocumentInner {
     pub ctx: AppContext,
@@ -191,17 +198,11 @@ impl TextDocumentInner {
         self.callbacks
             .retain(|entry| entry.alive.strong_count() > 0);
 
-        let live_callbacks: Vec<Arc<dyn Fn(DocumentEvent) + Send + Sync>> = self
+        let live_callbacks: Vec<CallbackEntry> = self
             .callbacks
             .iter()
-            .filter_map(|entry| {
-                let alive = entry.alive.upgrade()?;
-                if alive.load(std::sync::atomic::Ordering::Relaxed) {
-                    Some(Arc::clone(&entry.callback))
-                } else {
-                    None
-                }
-            })
+            .filter(|entry| entry.is_alive())
+            .cloned()
             .collect();
 
         if live_callbacks.is_empty() {
@@ -449,11 +450,12 @@ impl Drop for TextDocumentInner {
 /// Dispatch queued events outside the lock.
 ///
 /// Call this after releasing the document mutex to avoid deadlocks
-/// when callbacks call back into the document.
+/// when callbacks call back into the document. A callback whose subscription
+/// is dropped meanwhile (by an earlier callback, say) is not called any more.
 pub(crate) fn dispatch_queued_events(queued: QueuedEvents) {
     for (event, callbacks) in queued {
-        for cb in &callbacks {
-            cb(event.clone());
+        for entry in callbacks.iter().filter(|entry| entry.is_alive()) {
+            (entry.callback)(event.clone());
         }
     }
 }
-- 
2.43.0


From b2f9f357ed9bd4030b0f5f89d5f6166a8c9ad052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 54/95] fix: ModificationChanged is announced whenever the
 modified flag changes

---
 crates/public_api/src/document.rs | 5 +----
 crates/public_api/src/inner.rs    | 7 +++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 3e09b01..3152c7b 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -878,10 +878,7 @@ impl TextDocument {
     pub fn set_modified(&self, modified: bool) {
         let queued = {
             let mut inner = self.inner.lock();
-            if inner.modified != modified {
-                inner.modified = modified;
-                inner.queue_event(DocumentEvent::ModificationChanged(modified));
-            }
+            inner.modified = modified;
             inner.take_queued_events()
         };
         crate::inner::dispatch_queued_events(queued);
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 2de28d8..75d6d7c 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -64,6 +64,8 @@ pub(crate) struct TextDocumentInner {
     pub root_id: EntityId,
     pub document_id: EntityId,
     pub modified: bool,
+    /// The modified flag that `ModificationChanged` announced last.
+    pub announced_modified: bool,
 
     // Cursor tracking
     pub cursors: Vec<Weak<Mutex<CursorData>>>,
@@ -191,6 +193,10 @@ impl TextDocumentInner {
     /// should release the lock and then invoke callbacks via
     /// [`dispatch_queued_events`].
     pub fn take_queued_events(&mut self) -> QueuedEvents {
+        if self.announced_modified != self.modified {
+            self.announced_modified = self.modified;
+            self.queue_event(DocumentEvent::ModificationChanged(self.modified));
+        }
         if self.callback_cursor >= self.pending_events.len() {
             return Vec::new();
         }
@@ -425,6 +431,7 @@ impl TextDocumentInner {
             root_id: root.id,
             document_id: doc.id,
             modified: false,
+            announced_modified: false,
             cursors: Vec::new(),
             pending_events: Vec::new(),
             callbacks: Vec::new(),
-- 
2.43.0


From 0a58aa48564d660f202f0f556b45128e01e2e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 55/95] fix: Undo and redo announce the exact region and every
 change of format

---
 crates/public_api/src/document.rs | 165 +++++++++++++++++++++++-------
 1 file changed, 127 insertions(+), 38 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 3152c7b..dcb479c 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1,5 +1,6 @@
 //! TextDocument implementation.
 
+use std::collections::HashMap;
 use std::sync::{Arc, Weak};
 
 use parking_lot::Mutex;
@@ -9,6 +10,8 @@ use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 
 use crate::{ResourceType, TextDirection, WrapMode};
+use common::entities::{Frame, List, Table, TableCell};
+use common::format_runs::{FormatRun, ImageAnchor};
 use frontend::commands::{
     block_commands, document_commands, document_inspection_commands, document_io_commands,
     document_search_commands, frame_commands, resource_commands, table_cell_commands,
@@ -807,7 +810,7 @@ impl TextDocument {
     pub fn undo(&self) -> Result<()> {
         let queued = {
             let mut inner = self.inner.lock();
-            let before = capture_block_state(&inner);
+            let before = capture_undo_state(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
@@ -828,7 +831,7 @@ impl TextDocument {
     pub fn redo(&self) -> Result<()> {
         let queued = {
             let mut inner = self.inner.lock();
-            let before = capture_block_state(&inner);
+            let before = capture_undo_state(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
@@ -1042,6 +1045,15 @@ impl Default for TextDocument {
 
 // ── Undo/redo change detection helpers ─────────────────────────
 
+/// Document state for before/after comparison during undo/redo.
+struct UndoState {
+    /// All blocks, sorted by document_position.
+    blocks: Vec<UndoBlockState>,
+    tables: HashMap<u64, Table>,
+    cells: HashMap<u64, TableCell>,
+    frames: HashMap<u64, Frame>,
+}
+
 /// Lightweight block state for before/after comparison during undo/redo.
 struct UndoBlockState {
     id: u64,
@@ -1049,15 +1061,22 @@ struct UndoBlockState {
     text_length: i64,
     plain_text: String,
     format: BlockFormat,
+    list: Option<List>,
+    runs: Vec<FormatRun>,
+    images: Vec<ImageAnchor>,
 }
 
-/// Capture the state of all blocks, sorted by document_position.
-fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
+/// Capture the state of all blocks, sorted by document_position, and the
+/// formats of tables, cells and frames (their structure is left out).
+fn capture_undo_state(inner: &TextDocumentInner) -> UndoState {
     let mut all_blocks =
         frontend::commands::block_commands::get_all_block(&inner.ctx).unwrap_or_default();
     let store = inner.ctx.db_context.get_store();
     crate::inner::refresh_block_positions(&mut all_blocks, store);
-    let mut states: Vec<UndoBlockState> = all_blocks
+    let lists = store.lists.read().unwrap().clone();
+    let runs = store.format_runs.read().unwrap().clone();
+    let images = store.block_images.read().unwrap().clone();
+    let mut blocks: Vec<UndoBlockState> = all_blocks
         .into_iter()
         .map(|b| {
             let format = BlockFormat::from(&b);
@@ -1071,11 +1090,59 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
                 text_length,
                 plain_text,
                 format,
+                list: entity.list.and_then(|id| lists.get(&id).cloned()),
+                runs: runs.get(&b.id).cloned().unwrap_or_default(),
+                images: images.get(&b.id).cloned().unwrap_or_default(),
             }
         })
         .collect();
-    states.sort_by_key(|s| s.position);
-    states
+    blocks.sort_by_key(|s| s.position);
+
+    let tables = store.tables.read().unwrap();
+    let cells = store.table_cells.read().unwrap();
+    let frames = store.frames.read().unwrap();
+    UndoState {
+        blocks,
+        tables: tables
+            .iter()
+            .map(|(id, table)| {
+                let mut table = table.clone();
+                (table.created_at, table.updated_at) = Default::default();
+                (table.rows, table.columns) = (0, 0);
+                table.cells.clear();
+                (*id, table)
+            })
+            .collect(),
+        cells: cells
+            .iter()
+            .map(|(id, cell)| {
+                let mut cell = cell.clone();
+                (cell.created_at, cell.updated_at) = Default::default();
+                (cell.row, cell.column) = (0, 0);
+                (cell.row_span, cell.column_span) = (1, 1);
+                cell.cell_frame = None;
+                (*id, cell)
+            })
+            .collect(),
+        frames: frames
+            .iter()
+            .map(|(id, frame)| {
+                let mut frame = frame.clone();
+                (frame.created_at, frame.updated_at) = Default::default();
+                (frame.parent_frame, frame.byte_range) = (None, (0, 0));
+                frame.blocks.clear();
+                frame.child_order.clear();
+                (*id, frame)
+            })
+            .collect(),
+    }
+}
+
+/// Whether an entity that is in both maps differs.
+fn any_changed<T: PartialEq>(before: &HashMap<u64, T>, after: &HashMap<u64, T>) -> bool {
+    before
+        .iter()
+        .any(|(id, x)| after.get(id).is_some_and(|y| x != y))
 }
 
 /// Build the full document text from sorted block states (joined with newlines).
@@ -1127,60 +1194,70 @@ fn queue_undo_redo_changed(inner: &mut TextDocumentInner) -> crate::inner::Queue
 
 /// Compare block state before and after undo/redo and emit
 /// ContentsChanged / FormatChanged events for affected regions.
-fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlockState]) {
-    let after = capture_block_state(inner);
+fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &UndoState) {
+    let UndoState {
+        blocks: after,
+        tables,
+        cells,
+        frames,
+    } = &capture_undo_state(inner);
+    let (structure_changed, before) = (
+        any_changed(&before.tables, tables)
+            || any_changed(&before.cells, cells)
+            || any_changed(&before.frames, frames),
+        &before.blocks,
+    );
 
     // Build a map of block id → state for the "before" set.
-    let before_map: std::collections::HashMap<u64, &UndoBlockState> =
-        before.iter().map(|s| (s.id, s)).collect();
-    let after_map: std::collections::HashMap<u64, &UndoBlockState> =
-        after.iter().map(|s| (s.id, s)).collect();
+    let before_map: HashMap<u64, &UndoBlockState> = before.iter().map(|s| (s.id, s)).collect();
+    let after_map: HashMap<u64, &UndoBlockState> = after.iter().map(|s| (s.id, s)).collect();
 
-    // Track the affected content region (earliest position, total old/new length).
-    let mut content_changed = false;
+    // Track the affected content region (earliest position, old and new end).
     let mut earliest_pos: Option<usize> = None;
     let mut old_end: usize = 0;
     let mut new_end: usize = 0;
     let mut blocks_affected: usize = 0;
 
-    let mut format_only_changes: Vec<(usize, usize)> = Vec::new(); // (position, length)
+    let mut format_only_changes: Vec<(usize, usize, FormatChangeKind)> = Vec::new();
 
     // Check blocks present in both before and after.
-    for after_state in &after {
+    for after_state in after {
+        let pos = after_state.position.max(0) as usize;
+        let len = after_state.text_length.max(0) as usize;
         if let Some(before_state) = before_map.get(&after_state.id) {
             let text_changed = before_state.plain_text != after_state.plain_text
                 || before_state.text_length != after_state.text_length;
-            let format_changed = before_state.format != after_state.format;
 
             if text_changed {
-                content_changed = true;
                 blocks_affected += 1;
-                let pos = after_state.position.max(0) as usize;
                 earliest_pos = Some(earliest_pos.map_or(pos, |p: usize| p.min(pos)));
                 old_end = old_end.max(
                     before_state.position.max(0) as usize
                         + before_state.text_length.max(0) as usize,
                 );
-                new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
-            } else if format_changed {
-                let pos = after_state.position.max(0) as usize;
-                let len = after_state.text_length.max(0) as usize;
-                format_only_changes.push((pos, len));
+                new_end = new_end.max(pos + len);
+            }
+            if before_state.format != after_state.format {
+                format_only_changes.push((pos, len, FormatChangeKind::Block));
+            } else if before_state.list != after_state.list {
+                format_only_changes.push((pos, len, FormatChangeKind::List));
+            } else if !text_changed
+                && (before_state.runs != after_state.runs
+                    || before_state.images != after_state.images)
+            {
+                format_only_changes.push((pos, len, FormatChangeKind::Character));
             }
         } else {
             // Block exists in after but not in before — new block from undo/redo.
-            content_changed = true;
             blocks_affected += 1;
-            let pos = after_state.position.max(0) as usize;
             earliest_pos = Some(earliest_pos.map_or(pos, |p: usize| p.min(pos)));
-            new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
+            new_end = new_end.max(pos + len);
         }
     }
 
     // Check blocks that were removed (present in before but not after).
     for before_state in before {
         if !after_map.contains_key(&before_state.id) {
-            content_changed = true;
             blocks_affected += 1;
             let pos = before_state.position.max(0) as usize;
             earliest_pos = Some(earliest_pos.map_or(pos, |p: usize| p.min(pos)));
@@ -1188,34 +1265,46 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
         }
     }
 
-    if content_changed {
-        let position = earliest_pos.unwrap_or(0);
-        let chars_removed = old_end.saturating_sub(position);
-        let chars_added = new_end.saturating_sub(position);
-
+    if let Some(earliest_pos) = earliest_pos {
         // Use a precise text-level diff for cursor adjustment so cursors land
         // at the actual edit point rather than the end of the affected block.
         let before_text = build_doc_text(before);
-        let after_text = build_doc_text(&after);
+        let after_text = build_doc_text(after);
         let (edit_offset, precise_removed, precise_added) =
             compute_text_edit(&before_text, &after_text);
         if precise_removed > 0 || precise_added > 0 {
             inner.adjust_cursors(edit_offset, precise_removed, precise_added);
         }
 
+        // Announce whole blocks: the edit, widened by the same unchanged text
+        // on both sides of the change.
+        let position = earliest_pos.min(edit_offset);
+        let old_edit_end = edit_offset + precise_removed;
+        let new_edit_end = edit_offset + precise_added;
+        let widen = old_end
+            .saturating_sub(old_edit_end)
+            .max(new_end.saturating_sub(new_edit_end))
+            .min(before_text.chars().count() - old_edit_end);
         inner.queue_event(DocumentEvent::ContentsChanged {
             position,
-            chars_removed,
-            chars_added,
+            chars_removed: old_edit_end + widen - position,
+            chars_added: new_edit_end + widen - position,
             blocks_affected,
         });
     }
 
     // Emit FormatChanged for blocks where only formatting changed (not content).
-    for (position, length) in format_only_changes {
+    for (position, length, kind) in format_only_changes {
         inner.queue_event(DocumentEvent::FormatChanged {
             position,
             length,
+            kind,
+        });
+    }
+    if structure_changed {
+        inner.queue_event(DocumentEvent::FormatChanged {
+            position: 0,
+            length: 0,
             kind: FormatChangeKind::Block,
         });
     }
-- 
2.43.0


From 400f78763e51e4c180548382151acc355041e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 56/95] fix: Delete and Backspace stop at the border of a table
 cell

---
 crates/public_api/src/cursor.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index ddc1c0b..2c016c8 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1363,6 +1363,17 @@ impl TextCursor {
 
     // ── Cell selection helpers (private) ─────────────────────
 
+    /// Whether both positions are in the same table cell, or none is in a table.
+    ///
+    /// The border of a cell is no character: Delete and Backspace stop there.
+    fn same_table_cell(&self, a: usize, b: usize) -> bool {
+        let cell = |position| {
+            self.table_cell_at(position)
+                .map(|c| (c.table.id(), c.row, c.column))
+        };
+        cell(a) == cell(b)
+    }
+
     /// Look up which table cell contains the given document position, if any.
     fn table_cell_at(&self, position: usize) -> Option<TableCellRef> {
         let inner = self.doc.lock();
@@ -1505,7 +1516,7 @@ impl TextCursor {
             // single Delete on `👋🏻` or `e\u{0301}` removes the
             // user-perceived character, not just its first scalar.
             let to = self.next_grapheme_boundary(pos);
-            if to == pos {
+            if to == pos || !self.same_table_cell(pos, to) {
                 return Ok(());
             }
             (pos, to)
@@ -1520,7 +1531,7 @@ impl TextCursor {
             (pos, anchor)
         } else if pos > 0 {
             let from = self.prev_grapheme_boundary(pos);
-            if from == pos {
+            if from == pos || !self.same_table_cell(from, pos) {
                 return Ok(());
             }
             (from, pos)
-- 
2.43.0


From 8d80dbe8bd3949ddf5cc1f646cc545081371b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 57/95] fix: Creating and inserting lists announce the blocks
 they change

---
 crates/public_api/src/cursor.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 2c016c8..30d8b7d 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1616,8 +1616,8 @@ impl TextCursor {
             inner.rehighlight_affected(pos.min(anchor));
             inner.queue_event(DocumentEvent::ContentsChanged {
                 position: pos.min(anchor),
-                chars_removed: 0,
-                chars_added: 0,
+                chars_removed: pos.max(anchor) - pos.min(anchor),
+                chars_added: pos.max(anchor) - pos.min(anchor),
                 blocks_affected: 1,
             });
             self.queue_undo_redo_event(&mut inner)
@@ -1638,15 +1638,15 @@ impl TextCursor {
             };
             let result =
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
+            // The new item follows the current block; a selection is kept.
+            let new_pos = to_usize(result.new_position);
             self.finish_edit_ext(
                 &mut inner,
-                edit_pos,
-                removed,
-                to_usize(result.new_position),
+                new_pos.saturating_sub(1),
+                0,
+                new_pos,
                 1,
-                false,
+                true,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From d80cae54347639c5239234c2aa2ca0a2e18e2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 58/95] fix: Replacing a selection by text announces the
 removed flow elements

---
 crates/public_api/src/cursor.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 30d8b7d..8c422d2 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -454,7 +454,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 to_usize(result.blocks_affected),
-                false,
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -506,7 +506,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                removed > 0,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -1640,14 +1640,7 @@ impl TextCursor {
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
             // The new item follows the current block; a selection is kept.
             let new_pos = to_usize(result.new_position);
-            self.finish_edit_ext(
-                &mut inner,
-                new_pos.saturating_sub(1),
-                0,
-                new_pos,
-                1,
-                true,
-            )
+            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, true)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From b332c629f98d620aa4d865db50c71bd807dc1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 59/95] fix: Inserting a fragment announces everything it
 inserted

---
 crates/public_api/src/cursor.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8c422d2..9b318e3 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -136,6 +136,25 @@ impl TextCursor {
         // 0 chars rather than overflowing; the cursor still moves to
         // `new_pos` below.
         let added = new_pos.saturating_sub(edit_pos);
+        self.finish_edit_added(
+            inner,
+            (edit_pos, removed, added),
+            new_pos,
+            blocks_affected,
+            flow_may_change,
+        )
+    }
+
+    /// Like [`finish_edit_ext`](Self::finish_edit_ext) for an edit (position,
+    /// characters removed, characters added) that need not end at `new_pos`.
+    fn finish_edit_added(
+        &self,
+        inner: &mut TextDocumentInner,
+        (edit_pos, removed, added): (usize, usize, usize),
+        new_pos: usize,
+        blocks_affected: usize,
+        flow_may_change: bool,
+    ) -> QueuedEvents {
         inner.adjust_cursors(edit_pos, removed, added);
         {
             let mut d = self.data.lock();
@@ -574,20 +593,26 @@ impl TextCursor {
                 };
                 document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)
             };
+            let length = |inner: &TextDocumentInner| {
+                document_inspection_commands::get_document_stats(&inner.ctx)
+                    .map(|s| max_cursor_position(&s))
+            };
+            let old_length = length(&inner)?;
             let result = if pos != anchor {
                 replace_selection(&inner, pos, anchor, insert)?
             } else {
                 insert(pos)?
             };
             let removed = pos.max(anchor) - pos.min(anchor);
-
             let edit_pos = pos.min(anchor);
-            self.finish_edit(
+            // The cursor may stay in front of the end of what was inserted.
+            let added = (length(&inner)? + removed).saturating_sub(old_length);
+            self.finish_edit_added(
                 &mut inner,
-                edit_pos,
-                removed,
+                (edit_pos, removed, added),
                 to_usize(result.new_position),
                 to_usize(result.blocks_added),
+                true,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From 242dc3d92b21f0488c4c0c8265a234cf33a443d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 60/95] fix: Imports and exports in the background keep edits
 and queries out

---
 crates/common/src/long_operation.rs | 29 ++++++++++++++++++++++++++++-
 crates/public_api/src/document.rs   | 24 ++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index fc0bcad..d5f4440 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -212,12 +212,17 @@ impl OperationHandleTrait for OperationHandle {
     }
 }
 
+/// Runs the body of an operation, given its id. The body returns whether the
+/// operation succeeded.
+pub type OperationGuard = Arc<dyn Fn(&str, &mut dyn FnMut() -> bool) + Send + Sync>;
+
 // Manager for long operations
 pub struct LongOperationManager {
     operations: Arc<Mutex<HashMap<String, Box<dyn OperationHandleTrait>>>>,
     next_id: Arc<Mutex<u64>>,
     results: Arc<Mutex<HashMap<String, String>>>, // Store serialized results
     event_hub: Option<Arc<EventHub>>,
+    guard: Option<OperationGuard>,
 }
 
 impl std::fmt::Debug for LongOperationManager {
@@ -242,9 +247,16 @@ impl LongOperationManager {
             next_id: Arc::new(Mutex::new(0)),
             results: Arc::new(Mutex::new(HashMap::new())),
             event_hub: None,
+            guard: None,
         }
     }
 
+    /// Run the operations started from now on through `guard`, which can keep
+    /// other users of the same data out meanwhile.
+    pub fn set_guard(&mut self, guard: OperationGuard) {
+        self.guard = Some(guard);
+    }
+
     /// Inject the event hub to allow sending long operation related events
     pub fn set_event_hub(&mut self, event_hub: &Arc<EventHub>) {
         self.event_hub = Some(Arc::clone(event_hub));
@@ -277,6 +289,7 @@ impl LongOperationManager {
         let results_clone = self.results.clone();
         let id_clone = id.clone();
         let event_hub_opt = self.event_hub.clone();
+        let guard = self.guard.clone();
 
         let join_handle = thread::spawn(move || {
             let progress_callback = {
@@ -301,7 +314,21 @@ impl LongOperationManager {
                 }) as Box<dyn Fn(OperationProgress) + Send>
             };
 
-            let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
+            let mut progress_callback = Some(progress_callback);
+            let mut operation_result = Err(anyhow::anyhow!("Operation did not run"));
+            let mut body = || {
+                if let Some(progress_callback) = progress_callback.take() {
+                    operation_result =
+                        operation.execute(progress_callback, cancel_flag_clone.clone());
+                }
+                operation_result.is_ok()
+            };
+            match guard {
+                Some(guard) => guard(&id_clone, &mut body),
+                None => {
+                    body();
+                }
+            }
 
             // An operation that ran to completion took effect, whether or not
             // a cancellation request reached it too late.
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index dcb479c..185493e 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -72,6 +72,7 @@ impl TextDocument {
 
         // Bridge backend long-operation events to public DocumentEvent.
         Self::subscribe_long_operation_events(&inner);
+        Self::guard_long_operations(&inner);
 
         Ok(Self { inner })
     }
@@ -177,6 +178,29 @@ impl TextDocument {
         ]);
     }
 
+    /// Long operations run in a thread of their own: keep edits and queries
+    /// out while one reads or replaces the content, as well as between the end
+    /// of an import and [`TextDocumentInner::finish_import`].
+    fn guard_long_operations(inner: &Arc<Mutex<TextDocumentInner>>) {
+        let weak = Arc::downgrade(inner);
+        let locked = inner.lock();
+        let mut manager = locked.ctx.long_operation_manager.lock().unwrap();
+        manager.set_guard(Arc::new(move |id, body| {
+            let Some(inner) = weak.upgrade() else {
+                body();
+                return;
+            };
+            let queued = {
+                let mut inner = inner.lock();
+                if body() {
+                    inner.finish_import(id);
+                }
+                inner.take_queued_events()
+            };
+            crate::inner::dispatch_queued_events(queued);
+        }));
+    }
+
     /// See [`TextDocumentInner::finish_import`].
     fn finish_import(weak: &Weak<Mutex<TextDocumentInner>>, operation_id: &str) {
         let Some(inner) = weak.upgrade() else { return };
-- 
2.43.0


From 3dca4910078a332b48efdb2a0301d377e7aea1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 61/95] fix: Cursors and consumers follow changes of the
 structure of a table

---
 crates/public_api/src/cursor.rs   | 71 +++++++++++++++----------------
 crates/public_api/src/document.rs | 22 +++++-----
 2 files changed, 46 insertions(+), 47 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 9b318e3..47a5470 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -177,6 +177,27 @@ impl TextCursor {
         self.queue_undo_redo_event(inner)
     }
 
+    /// Bookkeeping after a change of the structure of a table: bring cursors
+    /// and consumers along with the text, and announce the table itself.
+    fn finish_table_edit(
+        &self,
+        inner: &mut TextDocumentInner,
+        before: &crate::document::DocumentState,
+    ) -> QueuedEvents {
+        inner.modified = true;
+        inner.invalidate_text_cache();
+        inner.rehighlight_all();
+        crate::document::emit_change_events(inner, before);
+        inner.queue_event(DocumentEvent::FormatChanged {
+            position: 0,
+            length: 0,
+            kind: crate::flow::FormatChangeKind::Block,
+        });
+        inner.check_block_count_changed();
+        inner.check_flow_changed();
+        self.queue_undo_redo_event(inner)
+    }
+
     // ── Position & selection ─────────────────────────────────
 
     /// Current cursor position (between characters).
@@ -832,16 +853,12 @@ impl TextCursor {
     pub fn remove_table(&self, table_id: usize) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
+            let before = crate::document::capture_state(&inner);
             let dto = frontend::document_editing::RemoveTableDto {
                 table_id: to_i64(table_id),
             };
             document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            inner.check_flow_changed();
-            self.queue_undo_redo_event(&mut inner)
+            self.finish_table_edit(&mut inner, &before)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
@@ -851,16 +868,13 @@ impl TextCursor {
     pub fn insert_table_row(&self, table_id: usize, row_index: usize) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
+            let before = crate::document::capture_state(&inner);
             let dto = frontend::document_editing::InsertTableRowDto {
                 table_id: to_i64(table_id),
                 row_index: to_i64(row_index),
             };
             document_editing_commands::insert_table_row(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
+            self.finish_table_edit(&mut inner, &before)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
@@ -870,16 +884,13 @@ impl TextCursor {
     pub fn insert_table_column(&self, table_id: usize, column_index: usize) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
+            let before = crate::document::capture_state(&inner);
             let dto = frontend::document_editing::InsertTableColumnDto {
                 table_id: to_i64(table_id),
                 column_index: to_i64(column_index),
             };
             document_editing_commands::insert_table_column(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
+            self.finish_table_edit(&mut inner, &before)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
@@ -889,16 +900,13 @@ impl TextCursor {
     pub fn remove_table_row(&self, table_id: usize, row_index: usize) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
+            let before = crate::document::capture_state(&inner);
             let dto = frontend::document_editing::RemoveTableRowDto {
                 table_id: to_i64(table_id),
                 row_index: to_i64(row_index),
             };
             document_editing_commands::remove_table_row(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
+            self.finish_table_edit(&mut inner, &before)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
@@ -908,16 +916,13 @@ impl TextCursor {
     pub fn remove_table_column(&self, table_id: usize, column_index: usize) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
+            let before = crate::document::capture_state(&inner);
             let dto = frontend::document_editing::RemoveTableColumnDto {
                 table_id: to_i64(table_id),
                 column_index: to_i64(column_index),
             };
             document_editing_commands::remove_table_column(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
+            self.finish_table_edit(&mut inner, &before)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
@@ -934,6 +939,7 @@ impl TextCursor {
     ) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
+            let before = crate::document::capture_state(&inner);
             let dto = frontend::document_editing::MergeTableCellsDto {
                 table_id: to_i64(table_id),
                 start_row: to_i64(start_row),
@@ -942,11 +948,7 @@ impl TextCursor {
                 end_column: to_i64(end_column),
             };
             document_editing_commands::merge_table_cells(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
+            self.finish_table_edit(&mut inner, &before)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
@@ -961,17 +963,14 @@ impl TextCursor {
     ) -> Result<()> {
         let queued = {
             let mut inner = self.doc.lock();
+            let before = crate::document::capture_state(&inner);
             let dto = frontend::document_editing::SplitTableCellDto {
                 cell_id: to_i64(cell_id),
                 split_rows: to_i64(split_rows),
                 split_columns: to_i64(split_columns),
             };
             document_editing_commands::split_table_cell(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
-            inner.invalidate_text_cache();
-            inner.rehighlight_all();
-            inner.check_block_count_changed();
-            self.queue_undo_redo_event(&mut inner)
+            self.finish_table_edit(&mut inner, &before)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 185493e..99ca20e 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -834,12 +834,12 @@ impl TextDocument {
     pub fn undo(&self) -> Result<()> {
         let queued = {
             let mut inner = self.inner.lock();
-            let before = capture_undo_state(&inner);
+            let before = capture_state(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
             inner.rehighlight_all();
-            emit_undo_redo_change_events(&mut inner, &before);
+            emit_change_events(&mut inner, &before);
             inner.check_block_count_changed();
             inner.check_flow_changed();
             let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
@@ -855,12 +855,12 @@ impl TextDocument {
     pub fn redo(&self) -> Result<()> {
         let queued = {
             let mut inner = self.inner.lock();
-            let before = capture_undo_state(&inner);
+            let before = capture_state(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
             inner.rehighlight_all();
-            emit_undo_redo_change_events(&mut inner, &before);
+            emit_change_events(&mut inner, &before);
             inner.check_block_count_changed();
             inner.check_flow_changed();
             let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
@@ -1070,7 +1070,7 @@ impl Default for TextDocument {
 // ── Undo/redo change detection helpers ─────────────────────────
 
 /// Document state for before/after comparison during undo/redo.
-struct UndoState {
+pub(crate) struct DocumentState {
     /// All blocks, sorted by document_position.
     blocks: Vec<UndoBlockState>,
     tables: HashMap<u64, Table>,
@@ -1092,7 +1092,7 @@ struct UndoBlockState {
 
 /// Capture the state of all blocks, sorted by document_position, and the
 /// formats of tables, cells and frames (their structure is left out).
-fn capture_undo_state(inner: &TextDocumentInner) -> UndoState {
+pub(crate) fn capture_state(inner: &TextDocumentInner) -> DocumentState {
     let mut all_blocks =
         frontend::commands::block_commands::get_all_block(&inner.ctx).unwrap_or_default();
     let store = inner.ctx.db_context.get_store();
@@ -1125,7 +1125,7 @@ fn capture_undo_state(inner: &TextDocumentInner) -> UndoState {
     let tables = store.tables.read().unwrap();
     let cells = store.table_cells.read().unwrap();
     let frames = store.frames.read().unwrap();
-    UndoState {
+    DocumentState {
         blocks,
         tables: tables
             .iter()
@@ -1216,15 +1216,15 @@ fn queue_undo_redo_changed(inner: &mut TextDocumentInner) -> crate::inner::Queue
     inner.take_queued_events()
 }
 
-/// Compare block state before and after undo/redo and emit
+/// Compare the document with its state before undo, redo or a table edit and emit
 /// ContentsChanged / FormatChanged events for affected regions.
-fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &UndoState) {
-    let UndoState {
+pub(crate) fn emit_change_events(inner: &mut TextDocumentInner, before: &DocumentState) {
+    let DocumentState {
         blocks: after,
         tables,
         cells,
         frames,
-    } = &capture_undo_state(inner);
+    } = &capture_state(inner);
     let (structure_changed, before) = (
         any_changed(&before.tables, tables)
             || any_changed(&before.cells, cells)
-- 
2.43.0


From 3278338530300a76808d0fb4fbbdc935466f4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 62/95] fix: Undo and redo announce changes of the shape of a
 table

---
 crates/public_api/src/document.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 99ca20e..1e3a209 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1091,7 +1091,7 @@ struct UndoBlockState {
 }
 
 /// Capture the state of all blocks, sorted by document_position, and the
-/// formats of tables, cells and frames (their structure is left out).
+/// formats of tables, cells and frames (what they contain is left out).
 pub(crate) fn capture_state(inner: &TextDocumentInner) -> DocumentState {
     let mut all_blocks =
         frontend::commands::block_commands::get_all_block(&inner.ctx).unwrap_or_default();
@@ -1132,7 +1132,6 @@ pub(crate) fn capture_state(inner: &TextDocumentInner) -> DocumentState {
             .map(|(id, table)| {
                 let mut table = table.clone();
                 (table.created_at, table.updated_at) = Default::default();
-                (table.rows, table.columns) = (0, 0);
                 table.cells.clear();
                 (*id, table)
             })
@@ -1142,8 +1141,6 @@ pub(crate) fn capture_state(inner: &TextDocumentInner) -> DocumentState {
             .map(|(id, cell)| {
                 let mut cell = cell.clone();
                 (cell.created_at, cell.updated_at) = Default::default();
-                (cell.row, cell.column) = (0, 0);
-                (cell.row_span, cell.column_span) = (1, 1);
                 cell.cell_frame = None;
                 (*id, cell)
             })
-- 
2.43.0


From 4157a63d810b65f627071f10013df2176dab29f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:40 +0000
Subject: [PATCH 63/95] fix: Pasted blocks and frames keep their place among
 tables and nested frames

---
 .../src/use_cases/editing_helpers.rs          | 12 +++++++++
 .../src/use_cases/insert_fragment_uc.rs       | 13 +++++-----
 .../src/use_cases/insert_frame_uc.rs          | 26 ++++++++-----------
 .../use_cases/insert_html_at_position_uc.rs   |  9 ++++---
 .../insert_markdown_at_position_uc.rs         |  6 ++---
 5 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 85b5671..823c9a9 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -236,6 +236,18 @@ pub fn find_segment_at_offset(
     Err(anyhow!("No inline segments found in block"))
 }
 
+/// Where in the frame's `child_order` an element that follows `block` belongs.
+///
+/// This is not the block's index among the blocks of the document or of the
+/// frame: `child_order` lists tables and nested frames, too.
+pub fn child_order_index_after(frame: &common::entities::Frame, block: EntityId) -> usize {
+    frame
+        .child_order
+        .iter()
+        .position(|&entry| entry == block as i64)
+        .map_or(frame.child_order.len(), |index| index + 1)
+}
+
 /// Collect all block IDs in document order by traversing child_order recursively.
 ///
 /// Negative entries in child_order are nested frame IDs (convention: -frame_id);
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 2395426..72b30e4 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellFrameCreator, collect_block_ids_recursive, create_cell_frame, find_block_at_position,
-    impl_cell_frame_creator,
+    CellFrameCreator, child_order_index_after, collect_block_ids_recursive, create_cell_frame,
+    find_block_at_position, impl_cell_frame_creator,
 };
 use crate::InsertFragmentDto;
 use crate::InsertFragmentResultDto;
@@ -1458,7 +1458,7 @@ fn insert_mixed_fragment(
     }
 
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
     for (i, entry) in new_child_order_entries.iter().enumerate() {
         updated_frame
             .child_order
@@ -2014,7 +2014,7 @@ fn execute_insert_fragment(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         if let Some(tid) = created_tail_id {
             new_child_ids.push(tid as i64);
@@ -2215,7 +2215,8 @@ fn execute_insert_fragment(
                 );
 
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos =
+                    child_order_index_after(&updated_frame, current_block.id);
                 updated_frame
                     .child_order
                     .insert(child_order_insert_pos, created_tail.id as i64);
@@ -2378,7 +2379,7 @@ fn execute_insert_fragment(
             );
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 58be8ad..fb3e6ab 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -1,3 +1,4 @@
+use super::editing_helpers::child_order_index_after;
 use crate::InsertFrameDto;
 use crate::InsertFrameResultDto;
 use anyhow::{Result, anyhow};
@@ -41,12 +42,12 @@ pub struct InsertFrameUseCase {
 
 /// Find which frame contains the given document position by walking
 /// frames -> blocks and checking document_position ranges.
-/// Returns the frame and the block index within it closest to position.
+/// Returns the frame and the block within it closest to position.
 fn find_frame_at_position(
     uow: &dyn InsertFrameUnitOfWorkTrait,
     frame_ids: &[EntityId],
     position: i64,
-) -> Result<Option<(Frame, usize)>> {
+) -> Result<Option<(Frame, EntityId)>> {
     let store = uow.store();
     for frame_id in frame_ids {
         let frame = match uow.get_frame(frame_id)? {
@@ -65,16 +66,11 @@ fn find_frame_at_position(
             let frame_start = first.document_position;
             let frame_end = last.document_position + block_char_length(last, &store);
             if position >= frame_start && position <= frame_end {
-                // Find block index closest to position
-                let mut block_idx = 0;
-                for (i, block) in blocks.iter().enumerate() {
-                    if position <= block.document_position + block_char_length(block, &store) {
-                        block_idx = i;
-                        break;
-                    }
-                    block_idx = i;
-                }
-                return Ok(Some((frame, block_idx)));
+                let closest = blocks
+                    .iter()
+                    .find(|b| position <= b.document_position + block_char_length(b, &store))
+                    .unwrap_or(last);
+                return Ok(Some((frame, closest.id)));
             }
         }
     }
@@ -127,10 +123,10 @@ fn execute_insert_frame(
 
     let (parent_frame_id, child_order_insert_idx) =
         match find_frame_at_position(&**uow, &frame_ids, dto.position)? {
-            Some((parent_frame, block_idx)) => {
+            Some((parent_frame, block_id)) => {
                 // Insert the new sub-frame into the parent's child_order
-                // after the block at block_idx
-                let insert_idx = (block_idx + 1).min(parent_frame.child_order.len());
+                // after the block
+                let insert_idx = child_order_index_after(&parent_frame, block_id);
                 (Some(parent_frame.id), insert_idx)
             }
             None => {
diff --git a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
index 1d08731..91030c9 100644
--- a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::find_block_at_position;
+use super::editing_helpers::{child_order_index_after, find_block_at_position};
 use crate::InsertHtmlAtPositionDto;
 use crate::InsertHtmlAtPositionResultDto;
 use anyhow::{Result, anyhow};
@@ -575,7 +575,7 @@ fn execute_content_insert(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         for (i, id) in new_child_ids.iter().enumerate() {
             updated_frame
@@ -718,7 +718,8 @@ fn execute_content_insert(
 
             if !new_block_ids.is_empty() {
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos =
+                    child_order_index_after(&updated_frame, current_block.id);
                 for (i, &block_id) in new_block_ids.iter().enumerate() {
                     updated_frame
                         .child_order
@@ -881,7 +882,7 @@ fn execute_content_insert(
             }
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
diff --git a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
index 2463fac..859ae65 100644
--- a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::find_block_at_position;
+use super::editing_helpers::{child_order_index_after, find_block_at_position};
 use crate::InsertMarkdownAtPositionDto;
 use crate::InsertMarkdownAtPositionResultDto;
 use anyhow::{Result, anyhow};
@@ -440,7 +440,7 @@ fn execute_content_insert(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         new_child_ids.push(created_tail.id as i64);
         for (i, id) in new_child_ids.iter().enumerate() {
@@ -597,7 +597,7 @@ fn execute_content_insert(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let new_child_ids = [created_block.id as i64, created_tail.id as i64];
         for (i, id) in new_child_ids.iter().enumerate() {
             updated_frame
-- 
2.43.0


From 4053a568b62290dca54119a52b1653537d98d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 64/95] fix: Copying takes every block once and a whole
 one-cell table

Nested frames are listed by the document and reached through their parents:
blocks of quotes were copied twice. A document that is a single cell lost its
table when it was copied as a whole.
---
 .../src/use_cases/extract_fragment_uc.rs                 | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
index f52f1e5..18a2f02 100644
--- a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
+++ b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
@@ -102,6 +102,10 @@ impl ExtractFragmentUseCase {
         for frame_id in &frame_ids {
             collect_block_ids_recursive_ro(&*uow, frame_id, &mut all_block_ids)?;
         }
+        // The document lists nested frames and cells, too, whose blocks were
+        // reached through their parents already.
+        let mut seen: HashSet<EntityId> = HashSet::new();
+        all_block_ids.retain(|id| seen.insert(*id));
 
         let blocks_opt = uow.get_block_multi(&all_block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
@@ -129,7 +133,10 @@ impl ExtractFragmentUseCase {
                     _ => {}
                 }
             }
-            cross
+            // A document which is nothing but one cell is a table all the
+            // same when it is copied as a whole.
+            let whole_document = start <= 0 && end == i64::MAX;
+            cross || (whole_document && matches!(first_cell, Some(Some(_))))
         };
 
         if is_cross_cell {
-- 
2.43.0


From 85551ecb0952bf70d5f7c047249c3cf3e72ce8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 65/95] fix: Fragments keep code blocks, short table rows and
 the order of lists and tables

from_html and from_markdown dropped the code format of blocks and left holes in
tables with rows of different lengths; to_html and to_markdown wrote code blocks
as paragraphs, and to_html moved a table among list items behind the list.
---
 crates/public_api/src/fragment.rs | 57 ++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 7544acd..8638eb6 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -168,7 +168,18 @@ impl DocumentFragment {
 
             let block = &blocks[i];
 
-            if let Some(ref list) = block.list {
+            if block.is_code_block == Some(true) {
+                match block.code_language.as_deref() {
+                    Some(lang) if !lang.is_empty() => body.push_str(&format!(
+                        "<pre><code class=\"language-{}\">",
+                        escape_html(lang)
+                    )),
+                    _ => body.push_str("<pre><code>"),
+                }
+                body.push_str(&escape_html(&raw_text(&block.elements)));
+                body.push_str("</code></pre>");
+                i += 1;
+            } else if let Some(ref list) = block.list {
                 let is_ordered = is_ordered_list_style(&list.style);
                 let list_tag = if is_ordered { "ol" } else { "ul" };
                 body.push('<');
@@ -176,6 +187,12 @@ impl DocumentFragment {
                 body.push('>');
 
                 while i < blocks.len() {
+                    // A table among the items interrupts the list.
+                    if table_cursor < sorted_tables.len()
+                        && sorted_tables[table_cursor].block_insert_index <= i
+                    {
+                        break;
+                    }
                     let b = &blocks[i];
                     match &b.list {
                         Some(l) if is_ordered_list_style(&l.style) == is_ordered => {
@@ -263,7 +280,14 @@ impl DocumentFragment {
                 _ => String::new(),
             };
 
-            if let Some(level) = block.heading_level {
+            if block.is_code_block == Some(true) {
+                let lang = block.code_language.as_deref().unwrap_or("");
+                let text = raw_text(&block.elements);
+                let fence = "`".repeat(3.max(longest_backtick_run(&text) + 1));
+                parts.push((format!("{fence}{lang}\n{text}\n{fence}"), false));
+                prev_was_list = false;
+                list_counter = 0;
+            } else if let Some(level) = block.heading_level {
                 let n = level.clamp(1, 6) as usize;
                 let prefix = "#".repeat(n);
                 parts.push((format!("{} {}", prefix, inline_text), false));
@@ -354,6 +378,22 @@ fn is_ordered_list_style(style: &ListStyle) -> bool {
     )
 }
 
+/// The text of the elements, as a code block shows it: without formatting.
+fn raw_text(elements: &[FragmentElement]) -> String {
+    elements
+        .iter()
+        .filter_map(|elem| match &elem.content {
+            InlineContent::Text(text) => Some(text.as_str()),
+            InlineContent::Image { .. } | InlineContent::Empty => None,
+        })
+        .collect()
+}
+
+/// Length of the longest run of backticks in `text`.
+fn longest_backtick_run(text: &str) -> usize {
+    text.split(|c| c != '`').map(str::len).max().unwrap_or(0)
+}
+
 // ── HTML helpers ────────────────────────────────────────────────
 
 fn escape_html(s: &str) -> String {
@@ -695,8 +735,8 @@ fn parsed_elements_to_fragment(parsed: Vec<ParsedElement>) -> DocumentFragment {
                     non_breakable_lines: pb.non_breakable_lines,
                     direction: pb.direction,
                     background_color: pb.background_color,
-                    is_code_block: None,
-                    code_language: None,
+                    is_code_block: pb.is_code_block.then_some(true),
+                    code_language: pb.code_language,
                 });
             }
             ParsedElement::Table(pt) => {
@@ -706,11 +746,12 @@ fn parsed_elements_to_fragment(parsed: Vec<ParsedElement>) -> DocumentFragment {
 
                 let mut frag_cells: Vec<FragmentTableCell> = Vec::new();
                 for (row_idx, row) in pt.rows.iter().enumerate() {
-                    for (col_idx, cell) in row.iter().enumerate() {
+                    // Rows that are too short are filled up with empty cells.
+                    for col_idx in 0..num_columns {
+                        let spans = row.get(col_idx).map_or(&[][..], |cell| &cell.spans[..]);
                         let cell_elements: Vec<FragmentElement> =
-                            cell.spans.iter().map(span_to_fragment_element).collect();
-                        let cell_text: String =
-                            cell.spans.iter().map(|s| s.text.as_str()).collect();
+                            spans.iter().map(span_to_fragment_element).collect();
+                        let cell_text: String = spans.iter().map(|s| s.text.as_str()).collect();
 
                         frag_cells.push(FragmentTableCell {
                             row: row_idx,
-- 
2.43.0


From 8deb404abcf58c582483a650f47332af525fbc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 66/95] fix: Pasting keeps the format of the rest of the block
 and the cursor

The rest of a block lost its format and its list when something with a format
of its own was pasted at its start; pasting one such block into text put the
cursor behind the rest.
---
 .../src/use_cases/insert_fragment_uc.rs       | 104 ++++++++----------
 1 file changed, 43 insertions(+), 61 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 72b30e4..99ad90c 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1341,92 +1341,90 @@ fn insert_mixed_fragment(
     let mut tail_text_len: i64 = 0;
 
     if !skip_tail_block {
+        // What remains of the block pasted into keeps its own format.
+        let fresh_tail = overwrite_head && text_after.is_empty() && right_image_count == 0;
         let tail_block = Block {
             id: 0,
             created_at: now,
             updated_at: now,
-            list: if overwrite_head {
-                None
-            } else {
-                current_block.list
-            },
+            list: if fresh_tail { None } else { current_block.list },
             document_position: running_position,
-            fmt_alignment: if overwrite_head {
+            fmt_alignment: if fresh_tail {
                 None
             } else {
                 current_block.fmt_alignment.clone()
             },
-            fmt_top_margin: if overwrite_head {
+            fmt_top_margin: if fresh_tail {
                 None
             } else {
                 current_block.fmt_top_margin
             },
-            fmt_bottom_margin: if overwrite_head {
+            fmt_bottom_margin: if fresh_tail {
                 None
             } else {
                 current_block.fmt_bottom_margin
             },
-            fmt_left_margin: if overwrite_head {
+            fmt_left_margin: if fresh_tail {
                 None
             } else {
                 current_block.fmt_left_margin
             },
-            fmt_right_margin: if overwrite_head {
+            fmt_right_margin: if fresh_tail {
                 None
             } else {
                 current_block.fmt_right_margin
             },
-            fmt_heading_level: if overwrite_head {
+            fmt_heading_level: if fresh_tail {
                 None
             } else {
                 current_block.fmt_heading_level
             },
-            fmt_indent: if overwrite_head {
+            fmt_indent: if fresh_tail {
                 None
             } else {
                 current_block.fmt_indent
             },
-            fmt_text_indent: if overwrite_head {
+            fmt_text_indent: if fresh_tail {
                 None
             } else {
                 current_block.fmt_text_indent
             },
-            fmt_marker: if overwrite_head {
+            fmt_marker: if fresh_tail {
                 None
             } else {
                 current_block.fmt_marker.clone()
             },
-            fmt_tab_positions: if overwrite_head {
+            fmt_tab_positions: if fresh_tail {
                 vec![]
             } else {
                 current_block.fmt_tab_positions.clone()
             },
-            fmt_line_height: if overwrite_head {
+            fmt_line_height: if fresh_tail {
                 None
             } else {
                 current_block.fmt_line_height
             },
-            fmt_non_breakable_lines: if overwrite_head {
+            fmt_non_breakable_lines: if fresh_tail {
                 None
             } else {
                 current_block.fmt_non_breakable_lines
             },
-            fmt_direction: if overwrite_head {
+            fmt_direction: if fresh_tail {
                 None
             } else {
                 current_block.fmt_direction.clone()
             },
-            fmt_background_color: if overwrite_head {
+            fmt_background_color: if fresh_tail {
                 None
             } else {
                 current_block.fmt_background_color.clone()
             },
-            fmt_is_code_block: if overwrite_head {
+            fmt_is_code_block: if fresh_tail {
                 None
             } else {
                 current_block.fmt_is_code_block
             },
-            fmt_code_language: if overwrite_head {
+            fmt_code_language: if fresh_tail {
                 None
             } else {
                 current_block.fmt_code_language.clone()
@@ -1914,92 +1912,90 @@ fn execute_insert_fragment(
         let mut tail_text_len: i64 = 0;
 
         if !skip_tail {
+            // What remains of the block pasted into keeps its own format.
+            let fresh_tail = overwrite_head && text_after.is_empty() && right_image_count == 0;
             let tail_block = Block {
                 id: 0,
                 created_at: now,
                 updated_at: now,
-                list: if overwrite_head {
-                    None
-                } else {
-                    current_block.list
-                },
+                list: if fresh_tail { None } else { current_block.list },
                 document_position: running_position,
-                fmt_alignment: if overwrite_head {
+                fmt_alignment: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_alignment.clone()
                 },
-                fmt_top_margin: if overwrite_head {
+                fmt_top_margin: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_top_margin
                 },
-                fmt_bottom_margin: if overwrite_head {
+                fmt_bottom_margin: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_bottom_margin
                 },
-                fmt_left_margin: if overwrite_head {
+                fmt_left_margin: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_left_margin
                 },
-                fmt_right_margin: if overwrite_head {
+                fmt_right_margin: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_right_margin
                 },
-                fmt_heading_level: if overwrite_head {
+                fmt_heading_level: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_heading_level
                 },
-                fmt_indent: if overwrite_head {
+                fmt_indent: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_indent
                 },
-                fmt_text_indent: if overwrite_head {
+                fmt_text_indent: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_text_indent
                 },
-                fmt_marker: if overwrite_head {
+                fmt_marker: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_marker.clone()
                 },
-                fmt_tab_positions: if overwrite_head {
+                fmt_tab_positions: if fresh_tail {
                     vec![]
                 } else {
                     current_block.fmt_tab_positions.clone()
                 },
-                fmt_line_height: if overwrite_head {
+                fmt_line_height: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_line_height
                 },
-                fmt_non_breakable_lines: if overwrite_head {
+                fmt_non_breakable_lines: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_non_breakable_lines
                 },
-                fmt_direction: if overwrite_head {
+                fmt_direction: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_direction.clone()
                 },
-                fmt_background_color: if overwrite_head {
+                fmt_background_color: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_background_color.clone()
                 },
-                fmt_is_code_block: if overwrite_head {
+                fmt_is_code_block: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_is_code_block
                 },
-                fmt_code_language: if overwrite_head {
+                fmt_code_language: if fresh_tail {
                     None
                 } else {
                     current_block.fmt_code_language.clone()
@@ -2178,28 +2174,13 @@ fn execute_insert_fragment(
             let mut created_tail_id_overwrite: Option<EntityId> = None;
 
             if !skip_tail {
+                // What remains of the block pasted into keeps its own format.
                 let tail_block = Block {
                     id: 0,
                     created_at: now,
                     updated_at: now,
-                    list: None,
                     document_position: running_position,
-                    fmt_alignment: None,
-                    fmt_top_margin: None,
-                    fmt_bottom_margin: None,
-                    fmt_left_margin: None,
-                    fmt_right_margin: None,
-                    fmt_heading_level: None,
-                    fmt_indent: None,
-                    fmt_text_indent: None,
-                    fmt_marker: None,
-                    fmt_tab_positions: vec![],
-                    fmt_line_height: None,
-                    fmt_non_breakable_lines: None,
-                    fmt_direction: None,
-                    fmt_background_color: None,
-                    fmt_is_code_block: None,
-                    fmt_code_language: None,
+                    ..current_block.clone()
                 };
 
                 let created_tail =
@@ -2305,8 +2286,9 @@ fn execute_insert_fragment(
                 left_images.clone(),
             );
 
-            let mut running_position =
-                current_block.document_position + block_char_length(&updated_current, &store) + 1;
+            // (the rope still holds the whole block here)
+            let head_length = original_current_char_length - text_after_chars - right_image_count;
+            let mut running_position = current_block.document_position + head_length + 1;
 
             let list_id = if let Some(ref frag_list) = frag_block.list {
                 let list = frag_list.to_entity();
-- 
2.43.0


From b998bf053ceeff965b99ffc2514d6d80904517ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 67/95] fix: A pasted table stays where it was pasted

Its place among the children of the frame was the index among the blocks only,
which is another one behind tables and nested frames, and always behind the
block, even with the cursor at its start, unlike its place in the rope.
---
 .../src/use_cases/insert_fragment_uc.rs       | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 99ad90c..d7c1de9 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -413,16 +413,22 @@ fn insert_table_fragment(
 
     let insert_pos = dto.position;
 
+    // Where the first table goes among the frame's blocks, tables and nested
+    // frames: before the target block when the cursor is at its start, after
+    // it otherwise (the same side as its anchor in the rope, below).
     let child_order_insert_idx = if blocks.is_empty() {
         0usize
     } else {
-        let (target_block, _, _) = find_block_at_position(&blocks, insert_pos, &uow.store())?;
-        let blk_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
-        blk_ids
-            .iter()
-            .position(|&bid| bid == target_block.id)
-            .map(|i| i + 1)
-            .unwrap_or(0)
+        let (target_block, _, offset) = find_block_at_position(&blocks, insert_pos, &uow.store())?;
+        let parent_frame = uow
+            .get_frame(&frame_id)?
+            .ok_or_else(|| anyhow!("Parent frame not found"))?;
+        let after_target = child_order_index_after(&parent_frame, target_block.id);
+        if offset > 0 {
+            after_target
+        } else {
+            after_target.saturating_sub(1)
+        }
     };
 
     let mut total_blocks_added: i64 = 0;
-- 
2.43.0


From 5b35f09ba35fcfda7e9cff90b92d9af7f4199195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 68/95] fix: Pasting a table into cells replaces the text of
 the cells

The text of the cells was left as it was and the cursor moved away (the known
limitation noted at the code).
---
 .../src/use_cases/insert_fragment_uc.rs       | 102 +++++++++++-------
 1 file changed, 65 insertions(+), 37 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index d7c1de9..27e5bcd 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -8,8 +8,8 @@ use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::{
     block_char_length, rope_append_block, rope_delete_in_block, rope_insert_block_at,
-    rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_split_block,
-    top_level_frame_end_byte,
+    rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_remove_block,
+    rope_replace_block_content, rope_split_block, top_level_frame_end_byte,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -306,6 +306,8 @@ fn try_replace_table_cells(
         return Ok(None);
     }
 
+    let mut new_position = dto.position;
+
     for frag_cell in &frag_table.cells {
         let target_row = base_row + frag_cell.row;
         let target_col = base_col + frag_cell.column;
@@ -323,52 +325,78 @@ fn try_replace_table_cells(
             None => continue,
         };
 
+        let mut cell_frame = uow
+            .get_frame(&cf_id)?
+            .ok_or_else(|| anyhow!("Cell frame not found"))?;
         let existing_blk_ids =
             uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?;
-        let existing_blks_opt = uow.get_block_multi(&existing_blk_ids)?;
-        let existing_blks: Vec<Block> = existing_blks_opt.into_iter().flatten().collect();
+        let Some(&first_id) = existing_blk_ids.first() else {
+            continue;
+        };
 
         // Drop all blocks except the first (we'll reuse it).
-        for blk in existing_blks.iter().skip(1) {
-            clear_block_state(uow, blk.id);
-            uow.remove_block(&blk.id)?;
+        for blk_id in existing_blk_ids.iter().skip(1) {
+            clear_block_state(uow, *blk_id);
+            rope_remove_block(&uow.store(), *blk_id);
+            uow.remove_block(blk_id)?;
+        }
+        cell_frame.blocks = vec![first_id];
+        cell_frame.child_order = vec![first_id as i64];
+        cell_frame.updated_at = now;
+        uow.update_frame(&cell_frame)?;
+
+        let text = frag_cell
+            .blocks
+            .first()
+            .map_or("", |b| b.plain_text.as_str());
+        let (runs, images) = frag_cell
+            .blocks
+            .first()
+            .map(frag_block_state)
+            .unwrap_or_default();
+        rope_replace_block_content(&uow.store(), first_id, text);
+        write_block_state(uow, first_id, runs, images);
+
+        let mut prev_id = first_id;
+        let mut prev_byte_len = text.len() as u32;
+        let mut cell_chars = text.chars().count() as i64;
+        for extra_frag in frag_cell.blocks.iter().skip(1) {
+            let (xruns, ximages) = frag_block_state(extra_frag);
+            let extra_block = Block {
+                id: 0,
+                created_at: now,
+                updated_at: now,
+                list: None,
+                document_position: 0,
+                ..Default::default()
+            };
+            let created = uow.create_block(&extra_block, cf_id, -1)?;
+            let mut cell_frame = uow
+                .get_frame(&cf_id)?
+                .ok_or_else(|| anyhow!("Cell frame not found"))?;
+            cell_frame.child_order.push(created.id as i64);
+            uow.update_frame(&cell_frame)?;
+            rope_split_block(&uow.store(), prev_id, prev_byte_len, created.id);
+            rope_insert_in_block(&uow.store(), created.id, 0, &extra_frag.plain_text);
+            write_block_state(uow, created.id, xruns, ximages);
+            prev_id = created.id;
+            prev_byte_len = extra_frag.plain_text.len() as u32;
+            cell_chars += 1 + extra_frag.plain_text.chars().count() as i64;
         }
 
-        if let Some(first_blk) = existing_blks.first() {
-            clear_block_state(uow, first_blk.id);
-
-            if let Some(first_frag_blk) = frag_cell.blocks.first() {
-                let (runs, images) = frag_block_state(first_frag_blk);
-                let mut updated = first_blk.clone();
-                updated.updated_at = now;
-                uow.update_block(&updated)?;
-                write_block_state(uow, first_blk.id, runs, images);
-
-                for extra_frag in &frag_cell.blocks[1..] {
-                    let (xruns, ximages) = frag_block_state(extra_frag);
-                    let extra_block = Block {
-                        id: 0,
-                        created_at: now,
-                        updated_at: now,
-                        list: None,
-                        document_position: 0,
-                        ..Default::default()
-                    };
-                    let created = uow.create_block(&extra_block, cf_id, -1)?;
-                    write_block_state(uow, created.id, xruns, ximages);
-                }
-            } else {
-                let mut updated = first_blk.clone();
-                updated.updated_at = now;
-                uow.update_block(&updated)?;
-                write_block_state(uow, first_blk.id, Vec::new(), Vec::new());
-            }
+        // The cursor stays in its cell.
+        if (frag_cell.row, frag_cell.column) == (0, 0) {
+            let cell_start = all_blocks
+                .iter()
+                .find(|b| b.id == first_id)
+                .map_or(dto.position, |b| b.document_position);
+            new_position = dto.position.min(cell_start + cell_chars);
         }
     }
 
     Ok(Some((
         InsertFragmentResultDto {
-            new_position: dto.position,
+            new_position,
             blocks_added: 0,
         },
         snapshot,
-- 
2.43.0


From b7fabf789f5bf42873817c5b511e694abba13539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:48 +0000
Subject: [PATCH 69/95] fix: Edits take place where the cursor is at that
 moment

They read the cursor before they locked the document; an edit from another
thread in between moved the text, and the edit took place elsewhere.
---
 crates/public_api/src/cursor.rs | 114 +++++++++++++++++---------------
 1 file changed, 60 insertions(+), 54 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 47a5470..4f9f0f3 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -77,12 +77,9 @@ pub struct TextCursor {
 
 impl Clone for TextCursor {
     fn clone(&self) -> Self {
-        let (position, anchor) = {
-            let d = self.data.lock();
-            (d.position, d.anchor)
-        };
         let data = {
             let mut inner = self.doc.lock();
+            let (position, anchor) = self.read_cursor();
             let data = Arc::new(Mutex::new(CursorData {
                 position,
                 anchor,
@@ -99,8 +96,10 @@ impl Clone for TextCursor {
 }
 
 impl TextCursor {
-    // ── Helpers (called while doc lock is NOT held) ──────────
+    // ── Helpers ──────────────────────────────────────────────
 
+    /// Position and anchor. An edit reads them with the document locked:
+    /// until then, edits from other threads move the cursor.
     fn read_cursor(&self) -> (usize, usize) {
         let d = self.data.lock();
         (d.position, d.anchor)
@@ -451,17 +450,16 @@ impl TextCursor {
 
     /// Insert plain text at the cursor. Replaces selection if any.
     pub fn insert_text(&self, text: &str) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
-        // Try direct insert first (handles same-block selection and no-selection cases)
-        let dto = frontend::document_editing::InsertTextDto {
-            position: to_i64(pos),
-            anchor: to_i64(anchor),
-            text: text.into(),
-        };
-
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+
+            // Try direct insert first (handles same-block selection and no-selection cases)
+            let dto = frontend::document_editing::InsertTextDto {
+                position: to_i64(pos),
+                anchor: to_i64(anchor),
+                text: text.into(),
+            };
             let result = match document_editing_commands::insert_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -503,8 +501,6 @@ impl TextCursor {
 
     /// Insert text with a specific character format. Replaces selection if any.
     pub fn insert_formatted_text(&self, text: &str, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
         let make_dto = |p: usize, a: usize| frontend::document_editing::InsertFormattedTextDto {
             position: to_i64(p),
             anchor: to_i64(a),
@@ -519,6 +515,7 @@ impl TextCursor {
 
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let result = match document_editing_commands::insert_formatted_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -555,9 +552,9 @@ impl TextCursor {
 
     /// Insert a block break (new paragraph). Replaces selection if any.
     pub fn insert_block(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             // Selection active: delete first, then split (Word convention)
             let insert = |insert_pos: usize| {
@@ -602,9 +599,9 @@ impl TextCursor {
 
     /// Insert a document fragment at the cursor. Replaces selection if any.
     pub fn insert_fragment(&self, fragment: &DocumentFragment) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let insert = |insert_pos: usize| {
                 let dto = frontend::document_editing::InsertFragmentDto {
@@ -693,9 +690,9 @@ impl TextCursor {
 
     /// Insert an image at the cursor. Replaces selection if any.
     pub fn insert_image(&self, name: &str, width: u32, height: u32) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let insert = |insert_pos: usize| {
                 let dto = frontend::document_editing::InsertImageDto {
@@ -730,9 +727,9 @@ impl TextCursor {
 
     /// Insert a new frame at the cursor.
     pub fn insert_frame(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertFrameDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -763,9 +760,9 @@ impl TextCursor {
     /// The cursor moves into the first cell of the table.
     /// Returns a handle to the created table.
     pub fn insert_table(&self, rows: usize, columns: usize) -> Result<TextTable> {
-        let (pos, anchor) = self.read_cursor();
         let (table_id, queued) = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertTableDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1522,10 +1519,7 @@ impl TextCursor {
 
     /// Delete the character after the cursor (Delete key).
     pub fn delete_char(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-        let (del_pos, del_anchor) = if pos != anchor {
-            (pos, anchor)
-        } else {
+        self.delete_at_cursor(|pos| {
             // No-op at end of document (symmetric with delete_previous_char at start)
             let end = {
                 let inner = self.doc.lock();
@@ -1534,45 +1528,53 @@ impl TextCursor {
                     .unwrap_or(0)
             };
             if pos >= end {
-                return Ok(());
+                return None;
             }
             // Delete the whole grapheme cluster after the cursor so a
             // single Delete on `👋🏻` or `e\u{0301}` removes the
             // user-perceived character, not just its first scalar.
             let to = self.next_grapheme_boundary(pos);
-            if to == pos || !self.same_table_cell(pos, to) {
-                return Ok(());
-            }
-            (pos, to)
-        };
-        self.do_delete(del_pos, del_anchor)
+            (to != pos && self.same_table_cell(pos, to)).then_some((pos, to))
+        })
     }
 
     /// Delete the character before the cursor (Backspace key).
     pub fn delete_previous_char(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-        let (del_pos, del_anchor) = if pos != anchor {
-            (pos, anchor)
-        } else if pos > 0 {
+        self.delete_at_cursor(|pos| {
+            if pos == 0 {
+                return None;
+            }
             let from = self.prev_grapheme_boundary(pos);
-            if from == pos || !self.same_table_cell(from, pos) {
+            (from != pos && self.same_table_cell(from, pos)).then_some((from, pos))
+        })
+    }
+
+    /// Delete the selection, or without one what `range` finds at the cursor.
+    fn delete_at_cursor(&self, range: impl Fn(usize) -> Option<(usize, usize)>) -> Result<()> {
+        loop {
+            let cursor = self.read_cursor();
+            let (pos, anchor) = if cursor.0 != cursor.1 {
+                cursor
+            } else if let Some(range) = range(cursor.0) {
+                range
+            } else {
+                return Ok(());
+            };
+            // Another thread may edit while the range is worked out.
+            if self.do_delete(cursor, pos, anchor)? {
                 return Ok(());
             }
-            (from, pos)
-        } else {
-            return Ok(());
-        };
-        self.do_delete(del_pos, del_anchor)
+        }
     }
 
     /// Delete the selected text. Returns the deleted text. No-op if no selection.
     pub fn remove_selected_text(&self) -> Result<String> {
-        let (pos, anchor) = self.read_cursor();
-        if pos == anchor {
-            return Ok(String::new());
-        }
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+            if pos == anchor {
+                return Ok(String::new());
+            }
             let dto = frontend::document_editing::DeleteTextDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1627,9 +1629,9 @@ impl TextCursor {
 
     /// Turn the block(s) in the selection into a list.
     pub fn create_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::CreateListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1652,9 +1654,9 @@ impl TextCursor {
 
     /// Insert a new list item at the cursor position.
     pub fn insert_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1866,9 +1868,9 @@ impl TextCursor {
 
     /// Set the character format for the selection.
     pub fn set_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_text_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1887,9 +1889,9 @@ impl TextCursor {
 
     /// Merge a character format into the selection.
     pub fn merge_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_merge_dto(pos, anchor);
             document_formatting_commands::merge_text_format(
                 &inner.ctx,
@@ -1912,9 +1914,9 @@ impl TextCursor {
 
     /// Set the block format for the current block (or all blocks in selection).
     pub fn set_block_format(&self, format: &BlockFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_block_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1933,9 +1935,9 @@ impl TextCursor {
 
     /// Set the frame format.
     pub fn set_frame_format(&self, frame_id: usize, format: &FrameFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor, frame_id);
             document_formatting_commands::set_frame_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1990,9 +1992,13 @@ impl TextCursor {
         inner.take_queued_events()
     }
 
-    fn do_delete(&self, pos: usize, anchor: usize) -> Result<()> {
+    /// Delete `pos..anchor`, unless the cursor is not at `expected` any more.
+    fn do_delete(&self, expected: (usize, usize), pos: usize, anchor: usize) -> Result<bool> {
         let queued = {
             let mut inner = self.doc.lock();
+            if self.read_cursor() != expected {
+                return Ok(false);
+            }
             let dto = frontend::document_editing::DeleteTextDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -2022,7 +2028,7 @@ impl TextCursor {
             self.queue_undo_redo_event(&mut inner)
         };
         crate::inner::dispatch_queued_events(queued);
-        Ok(())
+        Ok(true)
     }
 
     /// Resolve a MoveOperation to a concrete position.
-- 
2.43.0


From b4fdf530728b38312bfa5fec8bafc40d3d80adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:00 +0000
Subject: [PATCH 70/95] fix: Undo and redo wait for the end of an edit block

---
 crates/common/src/undo_redo.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index bea9b80..5c49725 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -252,6 +252,9 @@ impl UndoRedoManager {
     /// Returns Ok(()) if successful or if there are no commands to undo.
     pub fn undo(&mut self, stack_id: Option<u64>) -> Result<()> {
         let target_stack_id = stack_id.unwrap_or(0);
+        if self.is_composing(target_stack_id) {
+            return Err(anyhow!("Cannot undo while a composite is in progress"));
+        }
         let stack = self
             .stacks
             .get_mut(&target_stack_id)
@@ -282,6 +285,9 @@ impl UndoRedoManager {
     /// Returns Ok(()) if successful or if there are no commands to redo.
     pub fn redo(&mut self, stack_id: Option<u64>) -> Result<()> {
         let target_stack_id = stack_id.unwrap_or(0);
+        if self.is_composing(target_stack_id) {
+            return Err(anyhow!("Cannot redo while a composite is in progress"));
+        }
         let stack = self
             .stacks
             .get_mut(&target_stack_id)
@@ -474,7 +480,7 @@ impl UndoRedoManager {
         let target_stack_id = stack_id.unwrap_or(0);
         self.stacks
             .get(&target_stack_id)
-            .map(|s| !s.undo_stack.is_empty())
+            .map(|s| !s.undo_stack.is_empty() && !self.is_composing(target_stack_id))
             .unwrap_or(false)
     }
 
@@ -484,10 +490,17 @@ impl UndoRedoManager {
         let target_stack_id = stack_id.unwrap_or(0);
         self.stacks
             .get(&target_stack_id)
-            .map(|s| !s.redo_stack.is_empty())
+            .map(|s| !s.redo_stack.is_empty() && !self.is_composing(target_stack_id))
             .unwrap_or(false)
     }
 
+    /// Is a composite in progress whose commands go to this stack?
+    fn is_composing(&self, stack_id: u64) -> bool {
+        self.in_progress_composite
+            .as_ref()
+            .is_some_and(|c| c.stack_id == stack_id)
+    }
+
     /// Clears the undo and redo history for a specific stack.
     ///
     /// This method removes all commands from both the undo and redo stacks of the specified stack.
-- 
2.43.0


From f2dc8957ee282d180a20d48453da81c310f850f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 71/95] fix: Clearing the history clears open edit blocks as
 well

---
 crates/common/src/undo_redo.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 5c49725..e0ec539 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -509,6 +509,13 @@ impl UndoRedoManager {
             stack.undo_stack.clear();
             stack.redo_stack.clear();
         }
+        // what an open composite has done so far is history as well
+        if let Some(composite) = &mut self.in_progress_composite
+            && composite.stack_id == stack_id
+        {
+            composite.commands.clear();
+            self.composite_starts.fill(0);
+        }
     }
 
     /// Clears all undo and redo history from all stacks.
@@ -518,6 +525,7 @@ impl UndoRedoManager {
             stack.redo_stack.clear();
         }
         self.in_progress_composite = None;
+        self.composite_stack_id = None;
         self.composite_nesting_level = 0;
         self.composite_starts.clear();
     }
-- 
2.43.0


From cbad073d926ca663e14004da24fa40029c30fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:02 +0000
Subject: [PATCH 72/95] fix: A composite stays on one existing stack

---
 crates/common/src/undo_redo.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index e0ec539..8ab3562 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -327,7 +327,15 @@ impl UndoRedoManager {
     /// // Now undo() will undo both commands as a single unit
     /// ```
     pub fn begin_composite(&mut self, stack_id: Option<u64>) -> Result<()> {
-        if self.composite_stack_id.is_some() && self.composite_stack_id != stack_id {
+        let target_stack_id = stack_id.unwrap_or(0);
+        if !self.stacks.contains_key(&target_stack_id) {
+            return Err(anyhow!("Stack with ID {} not found", target_stack_id));
+        }
+        if self
+            .in_progress_composite
+            .as_ref()
+            .is_some_and(|c| c.stack_id != target_stack_id)
+        {
             return Err(anyhow!(
                 "Cannot begin a composite on a different stack while another composite is in progress"
             ));
@@ -545,6 +553,11 @@ impl UndoRedoManager {
         if stack_id == 0 {
             return Err(anyhow!("Cannot delete the default stack"));
         }
+        if self.is_composing(stack_id) {
+            return Err(anyhow!(
+                "Cannot delete a stack while a composite is in progress on it"
+            ));
+        }
         if self.stacks.remove(&stack_id).is_some() {
             Ok(())
         } else {
-- 
2.43.0


From d9ca9d5be30fdf4b8a6db794adb9aee41bd92bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 73/95] fix: A composite that fails to undo or redo remains as
 it was

---
 crates/common/src/undo_redo.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 8ab3562..639ac6f 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -136,16 +136,28 @@ impl CompositeCommand {
 impl UndoRedoCommand for CompositeCommand {
     fn undo(&mut self) -> Result<()> {
         // Undo commands in reverse order
-        for command in self.commands.iter_mut().rev() {
-            command.undo()?;
+        for i in (0..self.commands.len()).rev() {
+            if let Err(e) = self.commands[i].undo() {
+                // all or nothing: the composite remains done
+                for command in &mut self.commands[i + 1..] {
+                    command.redo()?;
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
         // Redo commands in original order
-        for command in self.commands.iter_mut() {
-            command.redo()?;
+        for i in 0..self.commands.len() {
+            if let Err(e) = self.commands[i].redo() {
+                // all or nothing: the composite remains undone
+                for command in self.commands[..i].iter_mut().rev() {
+                    command.undo()?;
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From a3348a4825d6d833514c2d9ed736d4ab2ce0c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:11 +0000
Subject: [PATCH 74/95] fix: Beginning an edit block announces that undo and
 redo wait

---
 crates/public_api/src/cursor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 4f9f0f3..247e26e 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1958,8 +1958,12 @@ impl TextCursor {
 
     /// Begin a group of operations that will be undone as a single unit.
     pub fn begin_edit_block(&self) {
-        let inner = self.doc.lock();
-        undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
+        let queued = {
+            let mut inner = self.doc.lock();
+            undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
+            self.queue_undo_redo_event(&mut inner)
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     /// End the current edit block.
-- 
2.43.0


From 14deb797399173e7bee81df7f58bc07c391c6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 75/95] fix: Pasting cells into cells announces all the cells
 it changes

---
 crates/public_api/src/cursor.rs   | 44 +++++++++++++++++++++----------
 crates/public_api/src/fragment.rs |  6 +++++
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 247e26e..7220986 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -611,27 +611,43 @@ impl TextCursor {
                 };
                 document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)
             };
-            let length = |inner: &TextDocumentInner| {
+            let stats = |inner: &TextDocumentInner| {
                 document_inspection_commands::get_document_stats(&inner.ctx)
-                    .map(|s| max_cursor_position(&s))
             };
-            let old_length = length(&inner)?;
+            let old_stats = stats(&inner)?;
+            let edit_pos = pos.min(anchor);
+            let before = fragment
+                .is_tables()
+                .then(|| crate::document::capture_state(&inner));
             let result = if pos != anchor {
                 replace_selection(&inner, pos, anchor, insert)?
             } else {
                 insert(pos)?
             };
-            let removed = pos.max(anchor) - pos.min(anchor);
-            let edit_pos = pos.min(anchor);
-            // The cursor may stay in front of the end of what was inserted.
-            let added = (length(&inner)? + removed).saturating_sub(old_length);
-            self.finish_edit_added(
-                &mut inner,
-                (edit_pos, removed, added),
-                to_usize(result.new_position),
-                to_usize(result.blocks_added),
-                true,
-            )
+            let new_pos = to_usize(result.new_position);
+            let new_stats = stats(&inner)?;
+            // Cells pasted into cells change text in front of the cursor, too.
+            if let Some(before) = before
+                && new_stats.table_count == old_stats.table_count
+            {
+                let queued = self.finish_table_edit(&mut inner, &before);
+                let mut d = self.data.lock();
+                d.position = new_pos;
+                d.anchor = new_pos;
+                queued
+            } else {
+                let removed = pos.max(anchor) - edit_pos;
+                // The cursor may stay in front of the end of what was inserted.
+                let added = (max_cursor_position(&new_stats) + removed)
+                    .saturating_sub(max_cursor_position(&old_stats));
+                self.finish_edit_added(
+                    &mut inner,
+                    (edit_pos, removed, added),
+                    new_pos,
+                    to_usize(result.blocks_added),
+                    true,
+                )
+            }
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 8638eb6..52cf8c2 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -351,6 +351,12 @@ impl DocumentFragment {
         self.plain_text.is_empty()
     }
 
+    /// Does the fragment consist of tables alone?
+    pub(crate) fn is_tables(&self) -> bool {
+        serde_json::from_str::<FragmentData>(&self.data)
+            .is_ok_and(|d| d.blocks.is_empty() && !d.tables.is_empty())
+    }
+
     /// Returns the serialized internal representation.
     pub(crate) fn raw_data(&self) -> &str {
         &self.data
-- 
2.43.0


From ff691957fd34fa7ebf08661396e735f7587d0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:31 +0000
Subject: [PATCH 76/95] fix: Lists can be made in quotes and table cells

create_list and insert_list looked at the blocks of the main frame only: in a
nested frame or a table cell they made a list without items, or put the new
item into the main frame.
---
 .../src/use_cases/create_list_uc.rs           | 13 ++++---
 .../src/use_cases/insert_list_uc.rs           | 34 ++++++++++++-------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/crates/document_editing/src/use_cases/create_list_uc.rs b/crates/document_editing/src/use_cases/create_list_uc.rs
index c2bf406..011d4be 100644
--- a/crates/document_editing/src/use_cases/create_list_uc.rs
+++ b/crates/document_editing/src/use_cases/create_list_uc.rs
@@ -76,14 +76,13 @@ fn execute_create_list(
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
-    // Get frames
+    // Get the blocks of all frames: lists live in nested frames and table
+    // cells, too
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
-
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
+    let mut block_ids = Vec::new();
+    for frame_id in &frame_ids {
+        block_ids.extend(uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?);
+    }
 
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&block_ids)?;
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 96b612d..0ae18a3 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -80,18 +80,16 @@ fn execute_insert_list(
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
-    // Get frames
+    // Get the blocks of all frames: the position may be in a nested frame or
+    // in a table cell
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
-
-    let frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Frame not found"))?;
-
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
+    let mut block_ids = Vec::new();
+    let mut blocks_by_frame = Vec::new();
+    for frame_id in &frame_ids {
+        let frame_blocks = uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?;
+        block_ids.extend_from_slice(&frame_blocks);
+        blocks_by_frame.push((*frame_id, frame_blocks));
+    }
 
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&block_ids)?;
@@ -102,6 +100,18 @@ fn execute_insert_list(
     let (current_block, block_idx, _offset) =
         find_block_at_position(&blocks, position, &uow.store())?;
 
+    // The new block belongs to the same frame, right after the current block
+    let (frame_id, index_in_frame) = blocks_by_frame
+        .iter()
+        .find_map(|(frame_id, frame_blocks)| {
+            let index = frame_blocks.iter().position(|&id| id == current_block.id)?;
+            Some((*frame_id, index))
+        })
+        .ok_or_else(|| anyhow!("Block {} has no frame", current_block.id))?;
+    let frame = uow
+        .get_frame(&frame_id)?
+        .ok_or_else(|| anyhow!("Frame not found"))?;
+
     let now = chrono::Utc::now();
 
     // Create the List entity
@@ -130,7 +140,7 @@ fn execute_insert_list(
         ..Default::default()
     };
 
-    let insert_index = (block_idx + 1) as i32;
+    let insert_index = (index_in_frame + 1) as i32;
     let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
 
     // Mirror the new empty block into the rope, right after the current block's
-- 
2.43.0


From 4325cca73af00e295e72d17992a837645f21755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:31 +0000
Subject: [PATCH 77/95] fix: Markers of very high list items

Roman numerals end at 3999; beyond, as for letters beyond the alphabet, the
number is written. The last index overflowed.
---
 crates/public_api/src/text_block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/text_block.rs b/crates/public_api/src/text_block.rs
index cb0624d..658a64b 100644
--- a/crates/public_api/src/text_block.rs
+++ b/crates/public_api/src/text_block.rs
@@ -783,7 +783,7 @@ pub(crate) fn format_list_marker(
     list_dto: &frontend::list::dtos::ListDto,
     item_index: usize,
 ) -> String {
-    let number = item_index + 1; // 1-based for display
+    let number = item_index.saturating_add(1); // 1-based for display
     let marker_body = match list_dto.style {
         ListStyle::Disc => "\u{2022}".to_string(),   // •
         ListStyle::Circle => "\u{25E6}".to_string(), // ◦
@@ -803,6 +803,8 @@ pub(crate) fn format_list_marker(
                 format!("{number}")
             }
         }
+        // There is no roman notation for larger numbers
+        ListStyle::LowerRoman | ListStyle::UpperRoman if number > 3999 => format!("{number}"),
         ListStyle::LowerRoman => to_roman_lower(number),
         ListStyle::UpperRoman => to_roman_upper(number),
     };
-- 
2.43.0


From f95e5737f4ea94f83f929999395784fdc9caef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:10 +0000
Subject: [PATCH 78/95] fix: An explicit cell range beyond the table is looked
 up in the table only

Looking for the cells of a very large range took forever.
---
 crates/public_api/src/cursor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 7220986..393d627 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1305,8 +1305,11 @@ impl TextCursor {
             table_id: range.table_id,
         };
         let mut cells = Vec::new();
-        for row in range.start_row..=range.end_row {
-            for col in range.start_col..=range.end_col {
+        // An explicit range may reach beyond the table
+        let end_row = range.end_row.min(table.rows());
+        let end_col = range.end_col.min(table.columns());
+        for row in range.start_row..=end_row {
+            for col in range.start_col..=end_col {
                 if table.cell(row, col).is_some() {
                     cells.push(TableCellRef {
                         table: table.clone(),
@@ -1377,8 +1380,11 @@ impl TextCursor {
         let mut min_pos = usize::MAX;
         let mut max_pos = 0usize;
 
-        for row in range.start_row..=range.end_row {
-            for col in range.start_col..=range.end_col {
+        // An explicit range may reach beyond the table
+        let end_row = range.end_row.min(table.rows());
+        let end_col = range.end_col.min(table.columns());
+        for row in range.start_row..=end_row {
+            for col in range.start_col..=end_col {
                 if let Some(cell) = table.cell(row, col) {
                     for block in cell.blocks() {
                         let bp = block.position();
-- 
2.43.0


From a054614f6a0faf073049ad25f99b71b9b1d278c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:10 +0000
Subject: [PATCH 79/95] fix: A cursor made beyond the end deletes nothing

cursor_at does not limit the position. From there Backspace recorded an empty
deletion, and the search for the previous word went through all the positions
behind the end.
---
 crates/public_api/src/cursor.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 393d627..8bcf15e 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1543,13 +1543,7 @@ impl TextCursor {
     pub fn delete_char(&self) -> Result<()> {
         self.delete_at_cursor(|pos| {
             // No-op at end of document (symmetric with delete_previous_char at start)
-            let end = {
-                let inner = self.doc.lock();
-                document_inspection_commands::get_document_stats(&inner.ctx)
-                    .map(|s| max_cursor_position(&s))
-                    .unwrap_or(0)
-            };
-            if pos >= end {
+            if pos >= self.end_position() {
                 return None;
             }
             // Delete the whole grapheme cluster after the cursor so a
@@ -1563,7 +1557,8 @@ impl TextCursor {
     /// Delete the character before the cursor (Backspace key).
     pub fn delete_previous_char(&self) -> Result<()> {
         self.delete_at_cursor(|pos| {
-            if pos == 0 {
+            // A cursor made beyond the end has nothing to delete, either
+            if pos == 0 || pos > self.end_position() {
                 return None;
             }
             let from = self.prev_grapheme_boundary(pos);
@@ -1571,6 +1566,14 @@ impl TextCursor {
         })
     }
 
+    /// The last position a cursor can move to.
+    fn end_position(&self) -> usize {
+        let inner = self.doc.lock();
+        document_inspection_commands::get_document_stats(&inner.ctx)
+            .map(|s| max_cursor_position(&s))
+            .unwrap_or(0)
+    }
+
     /// Delete the selection, or without one what `range` finds at the cursor.
     fn delete_at_cursor(&self, range: impl Fn(usize) -> Option<(usize, usize)>) -> Result<()> {
         loop {
@@ -2182,7 +2185,7 @@ impl TextCursor {
                 } else if pos > 0 {
                     // Cursor is at a word start or on whitespace — scan backwards
                     // to find the start of the previous word.
-                    let mut search = pos - 1;
+                    let mut search = (pos - 1).min(self.end_position());
                     loop {
                         let (ws, we) = self.find_word_boundaries(search);
                         if ws < we {
-- 
2.43.0


From 5b33ddf715ccc5445ee2476c230f679410c2dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:54 +0000
Subject: [PATCH 80/95] fix: Undo and redo set the modified flag

---
 crates/public_api/src/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1e3a209..a55172d 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -835,9 +835,13 @@ impl TextDocument {
         let queued = {
             let mut inner = self.inner.lock();
             let before = capture_state(&inner);
+            let anything_to_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
+            if anything_to_undo {
+                inner.modified = true;
+            }
             inner.rehighlight_all();
             emit_change_events(&mut inner, &before);
             inner.check_block_count_changed();
@@ -856,9 +860,13 @@ impl TextDocument {
         let queued = {
             let mut inner = self.inner.lock();
             let before = capture_state(&inner);
+            let anything_to_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
+            if anything_to_redo {
+                inner.modified = true;
+            }
             inner.rehighlight_all();
             emit_change_events(&mut inner, &before);
             inner.check_block_count_changed();
-- 
2.43.0


From baed24e98b489d05fa285fc2cacd28a13212027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:57 +0000
Subject: [PATCH 81/95] fix: A name stands for the latest resource of that name

---
 crates/public_api/src/document.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index a55172d..6b54f07 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -816,14 +816,14 @@ impl TextDocument {
             inner.resource_cache.remove(name);
         }
 
-        // Slow path: linear scan, then populate cache for the match.
+        // Slow path: linear scan, then populate cache for the match. The latest
+        // of several resources with that name is the one it stands for.
         let all = resource_commands::get_all_resource(&inner.ctx)?;
-        for r in &all {
-            if r.name == name {
-                inner.resource_cache.insert(name.to_string(), r.id);
-                let bytes = BASE64.decode(&r.data_base64)?;
-                return Ok(Some(bytes));
-            }
+        let latest = all.iter().filter(|r| r.name == name).max_by_key(|r| r.id);
+        if let Some(r) = latest {
+            inner.resource_cache.insert(name.to_string(), r.id);
+            let bytes = BASE64.decode(&r.data_base64)?;
+            return Ok(Some(bytes));
         }
         Ok(None)
     }
@@ -838,6 +838,7 @@ impl TextDocument {
             let anything_to_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             if anything_to_undo {
                 inner.modified = true;
@@ -863,6 +864,7 @@ impl TextDocument {
             let anything_to_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             if anything_to_redo {
                 inner.modified = true;
-- 
2.43.0


From 4368d6ef703826d746a0b0ffda28be45d68d9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:52 +0000
Subject: [PATCH 82/95] fix: A highlight span may reach beyond any block

---
 crates/public_api/src/highlight.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index ac3b79a..6eed66c 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -327,7 +327,7 @@ pub(crate) fn merge_highlight_spans(
                 boundaries.push(frag_end);
 
                 for span in spans {
-                    let span_end = span.start + span.length;
+                    let span_end = span.start.saturating_add(span.length);
                     // Does this span overlap the fragment?
                     if span.start < frag_end && span_end > offset {
                         if span.start > offset && span.start < frag_end {
@@ -356,7 +356,7 @@ pub(crate) fn merge_highlight_spans(
                     let active: Vec<&HighlightSpan> = spans
                         .iter()
                         .filter(|s| {
-                            let s_end = s.start + s.length;
+                            let s_end = s.start.saturating_add(s.length);
                             s.start < sub_end && s_end > sub_start
                         })
                         .collect();
@@ -408,7 +408,7 @@ pub(crate) fn merge_highlight_spans(
                 let active: Vec<&HighlightSpan> = spans
                     .iter()
                     .filter(|s| {
-                        let s_end = s.start + s.length;
+                        let s_end = s.start.saturating_add(s.length);
                         s.start < offset + 1 && s_end > offset
                     })
                     .collect();
-- 
2.43.0


From cfc8d2b96de5d6e1d6fb135f46421d1b5bb743c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:52 +0000
Subject: [PATCH 83/95] fix: Highlighting follows every block an edit touches

---
 crates/public_api/src/highlight.rs | 79 ++++++++++++------------------
 1 file changed, 31 insertions(+), 48 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index 6eed66c..8055b88 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -165,6 +165,9 @@ pub(crate) struct BlockHighlightData {
     pub spans: Vec<HighlightSpan>,
     pub state: i64,
     pub user_data: Option<Box<dyn Any + Send + Sync>>,
+    /// What the highlighter was given: the block's text and the state before it.
+    pub text: String,
+    pub previous_state: i64,
 }
 
 /// All highlight data for the document.
@@ -476,8 +479,6 @@ impl TextDocumentInner {
             highlighter.highlight_block(text, &mut ctx);
             let (spans, state, user_data) = ctx.into_parts();
 
-            previous_state = state;
-
             // Only store if there's something to store.
             let hl = self.highlight.as_mut().unwrap();
             hl.blocks.insert(
@@ -486,13 +487,19 @@ impl TextDocumentInner {
                     spans,
                     state,
                     user_data,
+                    text: text.clone(),
+                    previous_state,
                 },
             );
+            previous_state = state;
         }
     }
 
-    /// Re-highlight starting from a specific block, cascading until the
-    /// block state stabilizes or the end of the document is reached.
+    /// Re-highlight a specific block and every block whose text or preceding
+    /// state is no longer the one it was highlighted with.
+    ///
+    /// One edit can change several blocks and leave those between them alone
+    /// (cells, for one), so all of them are looked at.
     pub(crate) fn rehighlight_from_block(&mut self, start_block_id: usize) {
         let hl = match self.highlight {
             Some(ref hl) => hl,
@@ -501,66 +508,42 @@ impl TextDocumentInner {
 
         let highlighter = Arc::clone(&hl.highlighter);
         let blocks = ordered_block_ids(self);
+        if !blocks.iter().any(|(id, _)| *id as usize == start_block_id) {
+            return;
+        }
 
-        // Find the starting index.
-        let start_idx = match blocks
-            .iter()
-            .position(|(id, _)| *id as usize == start_block_id)
-        {
-            Some(idx) => idx,
-            None => return,
-        };
-
-        for i in start_idx..blocks.len() {
-            let (block_id, ref text) = blocks[i];
+        let mut previous_state: i64 = -1;
+        for (block_id, text) in blocks {
             let bid = block_id as usize;
-
-            let hl = self.highlight.as_ref().unwrap();
-
-            // Get previous block's state.
-            let previous_state = if i == 0 {
-                -1
-            } else {
-                let prev_bid = blocks[i - 1].0 as usize;
-                hl.blocks.get(&prev_bid).map_or(-1, |d| d.state)
-            };
+            let hl = self.highlight.as_mut().unwrap();
+            let existing = hl.blocks.get_mut(&bid);
+            if bid != start_block_id
+                && let Some(d) = &existing
+                && d.previous_state == previous_state
+                && d.text == text
+            {
+                previous_state = d.state;
+                continue;
+            }
 
             // Take existing user data if available.
-            let user_data = self
-                .highlight
-                .as_mut()
-                .unwrap()
-                .blocks
-                .get_mut(&bid)
-                .and_then(|d| d.user_data.take());
-
-            let old_state = self
-                .highlight
-                .as_ref()
-                .unwrap()
-                .blocks
-                .get(&bid)
-                .map_or(-1, |d| d.state);
+            let user_data = existing.and_then(|d| d.user_data.take());
 
             let mut ctx = HighlightContext::new(bid, previous_state, user_data);
-            highlighter.highlight_block(text, &mut ctx);
+            highlighter.highlight_block(&text, &mut ctx);
             let (spans, state, user_data) = ctx.into_parts();
 
-            let hl = self.highlight.as_mut().unwrap();
             hl.blocks.insert(
                 bid,
                 BlockHighlightData {
                     spans,
                     state,
                     user_data,
+                    text,
+                    previous_state,
                 },
             );
-
-            // If we are past the initial block and the state didn't change,
-            // stop cascading.
-            if i > start_idx && state == old_state {
-                break;
-            }
+            previous_state = state;
         }
     }
 
-- 
2.43.0


From 77ee0a7247ede11f3d226546b4c2c7fee3d5a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 84/95] fix: DOCX export keeps tables and quotes in their place

---
 .../src/use_cases/export_docx_uc.rs           | 248 +++++++++++-------
 1 file changed, 150 insertions(+), 98 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index e0550a4..c5c14d5 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -8,7 +8,7 @@ use common::entities::{Block, Document, Frame, List, Root, Table, TableCell};
 use common::format_runs::InlineContent;
 use common::long_operation::LongOperation;
 use common::types::{EntityId, ROOT_ENTITY_ID};
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 pub trait ExportDocxUnitOfWorkFactoryTrait: Send + Sync {
@@ -122,122 +122,121 @@ impl LongOperation for ExportDocxUseCase {
             Some("Walking document tree...".to_string()),
         ));
 
-        for frame_id in &frame_ids {
-            if cancel_flag.load(Ordering::Relaxed) {
-                uow.end_transaction()?;
-                return Err(anyhow!("Operation was cancelled"));
+        // Collect the frames that another frame lists in its child_order: they
+        // are written at their place there
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for fid in &frame_ids {
+            if let Some(frame) = uow.get_frame(fid)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|&&entry| entry < 0)
+                        .map(|&entry| (-entry) as EntityId),
+                );
             }
+        }
 
+        // Collect blocks and tables in reading order
+        let mut items: Vec<DocxItem> = Vec::new();
+        for frame_id in &frame_ids {
             // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
+            self.collect_items(&*uow, frame_id, &cell_frame_ids, &mut items)?;
+        }
+        let total = items.len();
 
-            // Check if this is a table anchor frame
-            let frame = uow.get_frame(frame_id)?;
-            if let Some(ref f) = frame
-                && let Some(table_id) = f.table
-            {
-                let table = self.render_table_docx(&*uow, &table_id)?;
-                docx = docx.add_table(table);
-                paragraph_count += 1;
-                continue;
+        for (idx, item) in items.iter().enumerate() {
+            if cancel_flag.load(Ordering::Relaxed) {
+                uow.end_transaction()?;
+                return Err(anyhow!("Operation was cancelled"));
             }
 
-            let block_ids = uow.get_frame_relationship(
-                frame_id,
-                &common::direct_access::frame::FrameRelationshipField::Blocks,
-            )?;
-
-            if block_ids.is_empty() {
-                continue;
+            let block = match item {
+                DocxItem::Table(table_id) => {
+                    let table = self.render_table_docx(&*uow, table_id)?;
+                    docx = docx.add_table(table);
+                    paragraph_count += 1;
+                    continue;
+                }
+                DocxItem::Block(block) => block,
+            };
+
+            let block_text = block_content_via_store(block, &uow.store());
+            let elements = common::format_runs_query::inline_segments_for_block(
+                &uow.store(),
+                block.id,
+                &block_text,
+            );
+
+            let mut paragraph = Paragraph::new();
+
+            // Apply heading style
+            if let Some(level) = block.fmt_heading_level {
+                let style_name = format!("Heading{}", level.clamp(1, 6));
+                paragraph = paragraph.style(&style_name);
             }
+            // Apply line height (thousandths → 240ths: 1000 = 240, 1500 = 360)
+            if let Some(lh) = block.fmt_line_height {
+                let twips = (lh as f64 / 1000.0 * 240.0) as i32;
+                paragraph = paragraph.line_spacing(
+                    LineSpacing::new()
+                        .line_rule(LineSpacingType::Auto)
+                        .line(twips),
+                );
+            }
+            // Apply non-breakable lines
+            if block.fmt_non_breakable_lines == Some(true) {
+                paragraph = paragraph.keep_lines(true);
+            }
+            // Note: bidi (RTL direction) and paragraph shading (background_color)
+            // are not directly exposed on Paragraph in docx-rs 0.4.
+
+            for elem in &elements {
+                let text = match &elem.content {
+                    InlineContent::Text(t) => t.clone(),
+                    InlineContent::Image { name, .. } => {
+                        format!("[Image: {}]", name)
+                    }
+                    InlineContent::Empty => String::new(),
+                };
 
-            let blocks_opt = uow.get_block_multi(&block_ids)?;
-            let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-            blocks.sort_by_key(|b| b.document_position);
-            let total = blocks.len();
-
-            for (idx, block) in blocks.iter().enumerate() {
-                if cancel_flag.load(Ordering::Relaxed) {
-                    uow.end_transaction()?;
-                    return Err(anyhow!("Operation was cancelled"));
+                if text.is_empty() {
+                    continue;
                 }
 
-                let block_text = block_content_via_store(block, &uow.store());
-                let elements = common::format_runs_query::inline_segments_for_block(
-                    &uow.store(),
-                    block.id,
-                    &block_text,
-                );
-
-                let mut paragraph = Paragraph::new();
+                let mut run = Run::new().add_text(text);
 
-                // Apply heading style
-                if let Some(level) = block.fmt_heading_level {
-                    let style_name = format!("Heading{}", level.clamp(1, 6));
-                    paragraph = paragraph.style(&style_name);
+                if elem.fmt_font_bold == Some(true) {
+                    run = run.bold();
                 }
-                // Apply line height (thousandths → 240ths: 1000 = 240, 1500 = 360)
-                if let Some(lh) = block.fmt_line_height {
-                    let twips = (lh as f64 / 1000.0 * 240.0) as i32;
-                    paragraph = paragraph.line_spacing(
-                        LineSpacing::new()
-                            .line_rule(LineSpacingType::Auto)
-                            .line(twips),
-                    );
+                if elem.fmt_font_italic == Some(true) {
+                    run = run.italic();
                 }
-                // Apply non-breakable lines
-                if block.fmt_non_breakable_lines == Some(true) {
-                    paragraph = paragraph.keep_lines(true);
+                if elem.fmt_font_underline == Some(true) {
+                    run = run.underline("single");
                 }
-                // Note: bidi (RTL direction) and paragraph shading (background_color)
-                // are not directly exposed on Paragraph in docx-rs 0.4.
-
-                for elem in &elements {
-                    let text = match &elem.content {
-                        InlineContent::Text(t) => t.clone(),
-                        InlineContent::Image { name, .. } => {
-                            format!("[Image: {}]", name)
-                        }
-                        InlineContent::Empty => String::new(),
-                    };
-
-                    if text.is_empty() {
-                        continue;
-                    }
-
-                    let mut run = Run::new().add_text(text);
-
-                    if elem.fmt_font_bold == Some(true) {
-                        run = run.bold();
-                    }
-                    if elem.fmt_font_italic == Some(true) {
-                        run = run.italic();
-                    }
-                    if elem.fmt_font_underline == Some(true) {
-                        run = run.underline("single");
-                    }
-                    if elem.fmt_font_strikeout == Some(true) {
-                        run = run.strike();
-                    }
-                    if elem.fmt_font_family.as_deref() == Some("monospace") {
-                        run = run.fonts(RunFonts::new().ascii("Courier New"));
-                    }
-
-                    paragraph = paragraph.add_run(run);
+                if elem.fmt_font_strikeout == Some(true) {
+                    run = run.strike();
+                }
+                if elem.fmt_font_family.as_deref() == Some("monospace") {
+                    run = run.fonts(RunFonts::new().ascii("Courier New"));
                 }
 
-                docx = docx.add_paragraph(paragraph);
-                paragraph_count += 1;
+                paragraph = paragraph.add_run(run);
+            }
 
-                if idx % 10 == 0 {
-                    let pct = 10.0 + (idx as f32 / total as f32) * 80.0;
-                    progress_callback(common::long_operation::OperationProgress::new(
-                        pct,
-                        Some(format!("Processing paragraph {}/{}", idx + 1, total)),
-                    ));
-                }
+            docx = docx.add_paragraph(paragraph);
+            paragraph_count += 1;
+
+            if idx % 10 == 0 {
+                let pct = 10.0 + (idx as f32 / total as f32) * 80.0;
+                progress_callback(common::long_operation::OperationProgress::new(
+                    pct,
+                    Some(format!("Processing paragraph {}/{}", idx + 1, total)),
+                ));
             }
         }
 
@@ -272,7 +271,60 @@ impl LongOperation for ExportDocxUseCase {
     }
 }
 
+/// What a DOCX body is made of, in reading order.
+enum DocxItem {
+    Block(Box<Block>),
+    Table(EntityId),
+}
+
 impl ExportDocxUseCase {
+    /// Collect the blocks and tables of a frame in the order of its children.
+    fn collect_items(
+        &self,
+        uow: &dyn ExportDocxUnitOfWorkTrait,
+        frame_id: &EntityId,
+        cell_frame_ids: &HashSet<EntityId>,
+        items: &mut Vec<DocxItem>,
+    ) -> Result<()> {
+        let Some(frame) = uow.get_frame(frame_id)? else {
+            return Ok(());
+        };
+        if let Some(table_id) = frame.table {
+            items.push(DocxItem::Table(table_id));
+            return Ok(());
+        }
+
+        let block_ids = uow.get_frame_relationship(
+            frame_id,
+            &common::direct_access::frame::FrameRelationshipField::Blocks,
+        )?;
+        let mut blocks: Vec<Block> = uow
+            .get_block_multi(&block_ids)?
+            .into_iter()
+            .flatten()
+            .collect();
+
+        if frame.child_order.is_empty() {
+            blocks.sort_by_key(|b| b.document_position);
+            items.extend(blocks.into_iter().map(|b| DocxItem::Block(Box::new(b))));
+            return Ok(());
+        }
+        let mut by_id: HashMap<EntityId, Block> = blocks.into_iter().map(|b| (b.id, b)).collect();
+        for &entry in &frame.child_order {
+            if entry > 0 {
+                if let Some(block) = by_id.remove(&(entry as EntityId)) {
+                    items.push(DocxItem::Block(Box::new(block)));
+                }
+            } else {
+                let child = (-entry) as EntityId;
+                if !cell_frame_ids.contains(&child) {
+                    self.collect_items(uow, &child, cell_frame_ids, items)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn render_table_docx(
         &self,
         uow: &dyn ExportDocxUnitOfWorkTrait,
-- 
2.43.0


From f17c46e80b780dd280b4f41ffbd5aa46a7b3d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:45 +0000
Subject: [PATCH 85/95] fix: DOCX export continues cells merged both ways over
 all their columns

---
 .../src/use_cases/export_docx_uc.rs           | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index c5c14d5..be57ea0 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -363,17 +363,17 @@ impl ExportDocxUseCase {
                     // In DOCX, vertically merged continuation cells still need a <w:tc>
                     // with vMerge continue. For column spans, the cell is simply absent.
                     // Check if this is a vertical merge continuation (a cell above spans into this row)
-                    let needs_vmerge_continue = r > 0 && {
-                        // Look for a cell above that spans into this row
-                        cells.iter().any(|cell| {
-                            cell.column == c as i64
-                                && cell.row < r as i64
-                                && (cell.row + cell.row_span) > r as i64
-                        })
-                    };
-                    if needs_vmerge_continue {
-                        let cont_cell =
+                    let continued = cells.iter().find(|cell| {
+                        cell.column == c as i64
+                            && cell.row < r as i64
+                            && (cell.row + cell.row_span) > r as i64
+                    });
+                    if let Some(cell) = continued {
+                        let mut cont_cell =
                             docx_rs::TableCell::new().vertical_merge(VMergeType::Continue);
+                        if cell.column_span > 1 {
+                            cont_cell = cont_cell.grid_span(cell.column_span as usize);
+                        }
                         docx_cells.push(cont_cell);
                     }
                     continue;
-- 
2.43.0


From e13f455bbeb53bad03ded7f34ec67405d2e28d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:15 +0000
Subject: [PATCH 86/95] fix: LaTeX export keeps the columns beside and below
 merged cells

---
 .../document_io/src/use_cases/export_latex_uc.rs  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 1de0593..2eab9d4 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -124,7 +124,7 @@ impl ExportLatexUseCase {
                 &dto.document_class
             };
             format!(
-                "\\documentclass{{{}}}\n\\usepackage{{hyperref}}\n\\usepackage{{ulem}}\n\\usepackage{{graphicx}}\n\\usepackage{{setspace}}\n\\usepackage{{xcolor}}\n\\begin{{document}}\n\n{}\n\n\\end{{document}}",
+                "\\documentclass{{{}}}\n\\usepackage{{hyperref}}\n\\usepackage{{multirow}}\n\\usepackage{{ulem}}\n\\usepackage{{graphicx}}\n\\usepackage{{setspace}}\n\\usepackage{{xcolor}}\n\\begin{{document}}\n\n{}\n\n\\end{{document}}",
                 doc_class, body
             )
         } else {
@@ -453,6 +453,19 @@ impl ExportLatexUseCase {
             let mut c = 0;
             while c < cols {
                 if covered[r][c] {
+                    // Below a \multirow the columns are still there, empty.
+                    let continued = cells.iter().find(|cell| {
+                        cell.column == c as i64
+                            && cell.row < r as i64
+                            && cell.row + cell.row_span > r as i64
+                    });
+                    if let Some(cell) = continued {
+                        row_parts.push(if cell.column_span > 1 {
+                            format!("\\multicolumn{{{}}}{{|l|}}{{}}", cell.column_span)
+                        } else {
+                            String::new()
+                        });
+                    }
                     c += 1;
                     continue;
                 }
-- 
2.43.0


From 3cb18bd62fd349ceb1560d297aa441c7228cbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:33 +0000
Subject: [PATCH 87/95] fix: LaTeX export keeps adjacent lists apart

---
 crates/document_io/src/use_cases/export_latex_uc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 2eab9d4..1e0cb29 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -270,7 +270,8 @@ impl ExportLatexUseCase {
                         None
                     };
 
-                    if b_list.is_some() {
+                    // An adjacent list is a list of its own, of its own kind
+                    if b_list.is_some_and(|l| l.id == list_entity.id) {
                         let inline_latex = self.render_inline_latex(uow, b)?;
                         items.push(format!("\\item {}", inline_latex));
                         i += 1;
-- 
2.43.0


From c482da6f6aa860082ad3029e10ec6682117fe183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:34 +0000
Subject: [PATCH 88/95] fix: LaTeX export takes no text for markup

---
 .../src/use_cases/export_latex_uc.rs          | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 1e0cb29..40d52e5 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -273,7 +273,13 @@ impl ExportLatexUseCase {
                     // An adjacent list is a list of its own, of its own kind
                     if b_list.is_some_and(|l| l.id == list_entity.id) {
                         let inline_latex = self.render_inline_latex(uow, b)?;
-                        items.push(format!("\\item {}", inline_latex));
+                        // A bracket behind \item would be its label
+                        let guard = if inline_latex.starts_with('[') {
+                            "{}"
+                        } else {
+                            ""
+                        };
+                        items.push(format!("\\item {}{}", guard, inline_latex));
                         i += 1;
                     } else {
                         break;
@@ -289,10 +295,15 @@ impl ExportLatexUseCase {
             } else if block.fmt_is_code_block == Some(true) {
                 // Code block: emit verbatim with raw text (no LaTeX formatting)
                 let raw_text = self.render_raw_text(uow, block)?;
-                parts.push(format!(
-                    "\\begin{{verbatim}}\n{}\n\\end{{verbatim}}",
-                    raw_text
-                ));
+                if raw_text.contains("\\end{verbatim}") {
+                    // The text would end the environment
+                    parts.push(format!("\\texttt{{{}}}", escape_latex(&raw_text)));
+                } else {
+                    parts.push(format!(
+                        "\\begin{{verbatim}}\n{}\n\\end{{verbatim}}",
+                        raw_text
+                    ));
+                }
                 i += 1;
             } else {
                 let inline_latex = self.render_inline_latex(uow, block)?;
-- 
2.43.0


From 327c220da81df2fc2eb5da618221d54d5ec52c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:53 +0000
Subject: [PATCH 89/95] fix: LaTeX export writes background colors as LaTeX
 expects them

---
 crates/document_io/src/use_cases/export_latex_uc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 40d52e5..4101a7a 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -331,9 +331,14 @@ impl ExportLatexUseCase {
                 }
                 // Wrap with background color
                 if let Some(ref c) = block.fmt_background_color {
+                    // A "#" has a meaning of its own in LaTeX
+                    let color = match c.strip_prefix('#') {
+                        Some(hex) => format!("[HTML]{{{}}}", escape_latex(&hex.to_uppercase())),
+                        None => format!("{{{}}}", escape_latex(c)),
+                    };
                     content = format!(
-                        "\\colorbox{{{}}}{{\\parbox{{\\linewidth}}{{{}}}}}",
-                        c, content
+                        "\\colorbox{}{{\\parbox{{\\linewidth}}{{{}}}}}",
+                        color, content
                     );
                 }
                 // Wrap with non-breakable lines
-- 
2.43.0


From f5ad10cb55757a413581db4b38ab3a18ae9d7025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:37 +0000
Subject: [PATCH 90/95] fix: DOCX export writes only what XML can hold

---
 .../document_io/src/use_cases/export_docx_uc.rs  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index be57ea0..8edd434 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -207,7 +207,7 @@ impl LongOperation for ExportDocxUseCase {
                     continue;
                 }
 
-                let mut run = Run::new().add_text(text);
+                let mut run = Run::new().add_text(xml_text(&text));
 
                 if elem.fmt_font_bold == Some(true) {
                     run = run.bold();
@@ -429,7 +429,7 @@ impl ExportDocxUseCase {
                                     continue;
                                 }
 
-                                let mut run = Run::new().add_text(text);
+                                let mut run = Run::new().add_text(xml_text(&text));
                                 if elem.fmt_font_bold == Some(true) {
                                     run = run.bold();
                                 }
@@ -483,3 +483,15 @@ impl ExportDocxUseCase {
         Ok(docx_table)
     }
 }
+
+/// The text without the characters XML has no way to write, which would make
+/// the whole file unreadable.
+fn xml_text(text: &str) -> String {
+    text.chars()
+        .filter(|c| match c {
+            '\t' | '\n' | '\r' => true,
+            '\u{fffe}' | '\u{ffff}' => false,
+            c => *c >= ' ',
+        })
+        .collect()
+}
-- 
2.43.0


From 27c8e6c46a1081dfa26654e4f00687312a335e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 91/95] fix: Delete and Backspace wait for edits of other
 threads

---
 crates/public_api/src/cursor.rs | 35 +++++++++++++++++++++++----------
 crates/public_api/src/inner.rs  |  5 +++++
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8bcf15e..a729bfc 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1577,21 +1577,31 @@ impl TextCursor {
     /// Delete the selection, or without one what `range` finds at the cursor.
     fn delete_at_cursor(&self, range: impl Fn(usize) -> Option<(usize, usize)>) -> Result<()> {
         loop {
-            let cursor = self.read_cursor();
-            let (pos, anchor) = if cursor.0 != cursor.1 {
-                cursor
-            } else if let Some(range) = range(cursor.0) {
-                range
+            let state = self.cursor_in_content();
+            let (cursor, _) = state;
+            let range = if cursor.0 != cursor.1 {
+                Some(cursor)
             } else {
-                return Ok(());
+                range(cursor.0)
             };
             // Another thread may edit while the range is worked out.
-            if self.do_delete(cursor, pos, anchor)? {
+            let done = match range {
+                Some((pos, anchor)) => self.do_delete(state, pos, anchor)?,
+                None => self.cursor_in_content() == state,
+            };
+            if done {
                 return Ok(());
             }
         }
     }
 
+    /// Position and anchor of the cursor, and the version of the content they
+    /// are positions in.
+    fn cursor_in_content(&self) -> ((usize, usize), u64) {
+        let inner = self.doc.lock();
+        (self.read_cursor(), inner.content_version)
+    }
+
     /// Delete the selected text. Returns the deleted text. No-op if no selection.
     pub fn remove_selected_text(&self) -> Result<String> {
         let queued = {
@@ -2021,11 +2031,16 @@ impl TextCursor {
         inner.take_queued_events()
     }
 
-    /// Delete `pos..anchor`, unless the cursor is not at `expected` any more.
-    fn do_delete(&self, expected: (usize, usize), pos: usize, anchor: usize) -> Result<bool> {
+    /// Delete `pos..anchor`, unless cursor or content are not `expected` any more.
+    fn do_delete(
+        &self,
+        expected: ((usize, usize), u64),
+        pos: usize,
+        anchor: usize,
+    ) -> Result<bool> {
         let queued = {
             let mut inner = self.doc.lock();
-            if self.read_cursor() != expected {
+            if (self.read_cursor(), inner.content_version) != expected {
                 return Ok(false);
             }
             let dto = frontend::document_editing::DeleteTextDto {
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 75d6d7c..527479f 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -96,6 +96,9 @@ pub(crate) struct TextDocumentInner {
     // on any edit or document reset. Avoids O(blocks) reconstruction per search.
     pub plain_text_cache: Option<String>,
 
+    /// Grows with every change of the document's content.
+    pub content_version: u64,
+
     // Last known block count, used to detect changes and emit BlockCountChanged.
     pub last_block_count: usize,
 
@@ -238,6 +241,7 @@ impl TextDocumentInner {
     /// Invalidate the cached plain text. Call after any edit.
     pub fn invalidate_text_cache(&mut self) {
         self.plain_text_cache = None;
+        self.content_version += 1;
     }
 
     /// Check the current block count and queue a `BlockCountChanged` event if it changed.
@@ -439,6 +443,7 @@ impl TextDocumentInner {
             poll_cursor: 0,
             resource_cache: HashMap::new(),
             plain_text_cache: None,
+            content_version: 0,
             last_block_count: 1, // new document starts with one block
             last_child_order: vec![block.id as i64],
             highlight: None,
-- 
2.43.0


From ba80bf9bef4a50dde6c74808bbbcee55effec539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:08 +0000
Subject: [PATCH 92/95] fix: Word movements stop at the words and never get
 stuck

NextWord stayed where it was in front of an underscore that is no word by
itself, and PreviousWord in front of a word that begins inside a grapheme
cluster (Thai sara am).
---
 crates/public_api/src/cursor.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index a729bfc..7feab16 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2175,15 +2175,18 @@ impl TextCursor {
                         position: to_i64(pos),
                         length: to_i64(scan_len),
                     };
-                    if let Ok(r) =
+                    let ahead =
                         document_inspection_commands::get_text_at_position(&inner.ctx, &dto)
-                    {
-                        for (i, ch) in r.text.chars().enumerate() {
-                            if ch.is_alphanumeric() || ch == '_' {
-                                // Found start of next word, find its end
-                                let word_pos = pos + i;
-                                drop(inner);
-                                let (_, word_end) = self.find_word_boundaries(word_pos);
+                            .map(|r| r.text)
+                            .unwrap_or_default();
+                    drop(inner);
+                    for (i, ch) in ahead.chars().enumerate() {
+                        if ch.is_alphanumeric() || ch == '_' {
+                            // Found start of next word, find its end. A
+                            // character that is no word by itself must not
+                            // hold the cursor where it is.
+                            let (_, word_end) = self.find_word_boundaries(pos + i);
+                            if word_end > pos {
                                 return word_end;
                             }
                         }
@@ -2195,7 +2198,7 @@ impl TextCursor {
             }
             MoveOperation::PreviousWord | MoveOperation::StartOfWord | MoveOperation::WordLeft => {
                 let (start, _) = self.find_word_boundaries(pos);
-                if start < pos {
+                let start = if start < pos {
                     start
                 } else if pos > 0 {
                     // Cursor is at a word start or on whitespace — scan backwards
@@ -2215,6 +2218,13 @@ impl TextCursor {
                     }
                 } else {
                     0
+                };
+                // A word can start inside a grapheme cluster (Thai sara am);
+                // snapping forward would bring the cursor back.
+                if self.forward_grapheme_boundary_at_or_after(start) == start {
+                    start
+                } else {
+                    self.prev_grapheme_boundary(start)
                 }
             }
             MoveOperation::Up | MoveOperation::Down => {
-- 
2.43.0


From c354c3ac43aab2015a22bf4a5981223606c16f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:02 +0000
Subject: [PATCH 93/95] fix: Markdown export of fragments keeps nesting and
 formats

Fragments wrote list items without their nesting, lost emphasis around code,
broke code that holds backticks, left ampersands unescaped and turned indented
paragraphs into code.
---
 crates/public_api/src/fragment.rs | 110 +++++++++++++++---------------
 1 file changed, 56 insertions(+), 54 deletions(-)

diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 52cf8c2..24ba0ad 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -254,7 +254,9 @@ impl DocumentFragment {
         // (rendered_text, is_list_item) — used for join logic
         let mut parts: Vec<(String, bool)> = Vec::new();
         let mut prev_was_list = false;
-        let mut list_counter: u32 = 0;
+        // For the last item of each level: whether it is numbered, its number,
+        // and where its content starts
+        let mut list_levels: Vec<(bool, u32, usize)> = Vec::new();
 
         // Sort tables by block_insert_index for interleaving
         let mut sorted_tables: Vec<&FragmentTable> = fragment_data.tables.iter().collect();
@@ -268,54 +270,50 @@ impl DocumentFragment {
             {
                 parts.push((render_table_markdown(sorted_tables[table_cursor]), false));
                 prev_was_list = false;
-                list_counter = 0;
                 table_cursor += 1;
             }
 
             let inline_text = render_inline_markdown(&block.elements);
             let is_list = block.list.is_some();
 
-            let indent_prefix = match block.indent {
-                Some(n) if n > 0 => "  ".repeat(n as usize),
-                _ => String::new(),
-            };
-
             if block.is_code_block == Some(true) {
                 let lang = block.code_language.as_deref().unwrap_or("");
                 let text = raw_text(&block.elements);
                 let fence = "`".repeat(3.max(longest_backtick_run(&text) + 1));
                 parts.push((format!("{fence}{lang}\n{text}\n{fence}"), false));
                 prev_was_list = false;
-                list_counter = 0;
             } else if let Some(level) = block.heading_level {
                 let n = level.clamp(1, 6) as usize;
                 let prefix = "#".repeat(n);
                 parts.push((format!("{} {}", prefix, inline_text), false));
                 prev_was_list = false;
-                list_counter = 0;
             } else if let Some(ref list) = block.list {
                 let is_ordered = is_ordered_list_style(&list.style);
                 if !prev_was_list {
-                    list_counter = 0;
+                    list_levels.clear();
                 }
-                if is_ordered {
-                    list_counter += 1;
-                    parts.push((
-                        format!("{}{}. {}", indent_prefix, list_counter, inline_text),
-                        true,
-                    ));
+                // An item nests in another one when it starts at that one's content
+                let level = (list.indent.max(0) as usize).min(list_levels.len());
+                let number = match list_levels.get(level) {
+                    Some(&(true, number, _)) => number + 1,
+                    _ => 1,
+                };
+                list_levels.truncate(level);
+                let offset = list_levels.last().map_or(0, |l| l.2);
+                let marker = if is_ordered {
+                    format!("{}. ", number)
                 } else {
-                    parts.push((format!("{}- {}", indent_prefix, inline_text), true));
-                }
+                    "- ".to_string()
+                };
+                list_levels.push((is_ordered, number, offset + marker.len()));
+                parts.push((
+                    format!("{}{}{}", " ".repeat(offset), marker, inline_text),
+                    true,
+                ));
                 prev_was_list = true;
             } else {
-                if indent_prefix.is_empty() {
-                    parts.push((inline_text, false));
-                } else {
-                    parts.push((format!("{}{}", indent_prefix, inline_text), false));
-                }
+                parts.push((inline_text, false));
                 prev_was_list = false;
-                list_counter = 0;
             }
 
             if !is_list {
@@ -571,6 +569,7 @@ fn escape_markdown(s: &str) -> String {
                 | '~'
                 | '<'
                 | '>'
+                | '&'
         ) {
             out.push('\\');
         }
@@ -582,44 +581,47 @@ fn escape_markdown(s: &str) -> String {
 fn render_inline_markdown(elements: &[FragmentElement]) -> String {
     let mut out = String::new();
     for elem in elements {
-        let raw_text = match &elem.content {
-            InlineContent::Text(t) => t.clone(),
-            InlineContent::Image { name, .. } => format!("![{}]({})", name, name),
-            InlineContent::Empty => String::new(),
-        };
-
-        let is_monospace = elem
-            .fmt_font_family
-            .as_deref()
-            .is_some_and(|f| f == "monospace");
+        let is_monospace = elem.fmt_font_family.as_deref() == Some("monospace");
         let is_bold = elem.fmt_font_bold.unwrap_or(false);
         let is_italic = elem.fmt_font_italic.unwrap_or(false);
         let is_strikeout = elem.fmt_font_strikeout.unwrap_or(false);
         let is_anchor = elem.fmt_is_anchor.unwrap_or(false);
 
+        let mut text = match &elem.content {
+            InlineContent::Text(t) if is_monospace => t.clone(),
+            InlineContent::Text(t) => escape_markdown(t),
+            InlineContent::Image { name, .. } => format!("![{}]({})", name, name),
+            InlineContent::Empty => String::new(),
+        };
+        if text.is_empty() {
+            continue;
+        }
+
+        // Formatting, innermost first, like the Markdown export of documents
         if is_monospace {
-            out.push('`');
-            out.push_str(&raw_text);
-            out.push('`');
-        } else {
-            let mut text = escape_markdown(&raw_text);
-            if is_bold && is_italic {
-                text = format!("***{}***", text);
-            } else if is_bold {
-                text = format!("**{}**", text);
-            } else if is_italic {
-                text = format!("*{}*", text);
-            }
-            if is_strikeout {
-                text = format!("~~{}~~", text);
-            }
-            if is_anchor {
-                let href = elem.fmt_anchor_href.as_deref().unwrap_or("");
-                out.push_str(&format!("[{}]({})", text, href));
+            let ticks = "`".repeat(longest_backtick_run(&text) + 1);
+            let pad = if text.starts_with('`') || text.ends_with('`') {
+                " "
             } else {
-                out.push_str(&text);
-            }
+                ""
+            };
+            text = format!("{ticks}{pad}{text}{pad}{ticks}");
+        }
+        if is_strikeout {
+            text = format!("~~{}~~", text);
+        }
+        if is_bold && is_italic {
+            text = format!("***{}***", text);
+        } else if is_bold {
+            text = format!("**{}**", text);
+        } else if is_italic {
+            text = format!("*{}*", text);
+        }
+        if is_anchor {
+            let href = elem.fmt_anchor_href.as_deref().unwrap_or("");
+            text = format!("[{}]({})", text, href);
         }
+        out.push_str(&text);
     }
     out
 }
-- 
2.43.0


From 8dee7a5a88a3b72f2bda99c28e3fbedcf0c38fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:01 +0000
Subject: [PATCH 94/95] fix: Reads through a cursor take position and text
 together

---
 crates/public_api/src/cursor.rs | 93 +++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 7feab16..c5f6a65 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -229,13 +229,13 @@ impl TextCursor {
 
     /// Get the selected text. Returns empty string if no selection.
     pub fn selected_text(&self) -> Result<String> {
+        let inner = self.doc.lock();
         let (pos, anchor) = self.read_cursor();
         if pos == anchor {
             return Ok(String::new());
         }
         let start = pos.min(anchor);
         let len = pos.max(anchor) - start;
-        let inner = self.doc.lock();
         let dto = frontend::document_inspection::GetTextAtPositionDto {
             position: to_i64(start),
             length: to_i64(len),
@@ -254,8 +254,8 @@ impl TextCursor {
 
     /// True if the cursor is at the start of a block.
     pub fn at_block_start(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -268,8 +268,8 @@ impl TextCursor {
 
     /// True if the cursor is at the end of a block.
     pub fn at_block_end(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -287,8 +287,8 @@ impl TextCursor {
 
     /// True if the cursor is at the very end of the document.
     pub fn at_end(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let stats = document_inspection_commands::get_document_stats(&inner.ctx).unwrap_or({
             frontend::document_inspection::DocumentStatsDto {
                 character_count: 0,
@@ -305,8 +305,8 @@ impl TextCursor {
 
     /// The block number (0-indexed) containing the cursor.
     pub fn block_number(&self) -> usize {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -317,8 +317,8 @@ impl TextCursor {
 
     /// The cursor's column within the current block (0-indexed).
     pub fn position_in_block(&self) -> usize {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -655,53 +655,70 @@ impl TextCursor {
 
     /// Extract the current selection as a [`DocumentFragment`].
     pub fn selection(&self) -> DocumentFragment {
-        let (pos, anchor) = self.read_cursor();
+        // The selected range is found in several steps: start over when an
+        // edit or a movement came in between.
+        loop {
+            let seen = self.cursor_in_content();
+            if let Some(fragment) = self.extract_selection(seen) {
+                return fragment;
+            }
+        }
+    }
+
+    /// The fragment selected by the cursor `seen` earlier, `None` if the cursor
+    /// or the document have changed since.
+    fn extract_selection(&self, seen: ((usize, usize), u64)) -> Option<DocumentFragment> {
+        let (pos, anchor) = seen.0;
 
         // For cell/mixed selections, compute position/anchor that span the
         // full cell range so ExtractFragment detects cross-cell correctly.
         let (extract_pos, extract_anchor) = match self.selection_kind() {
             SelectionKind::Cells(ref range) => match self.cell_range_positions(range) {
                 Some((start, end)) => (start, end),
-                None => return DocumentFragment::new(),
+                None => (anchor, anchor),
             },
             SelectionKind::Mixed {
                 ref cell_range,
                 text_before,
                 text_after,
-            } => {
-                let (cell_start, cell_end) = match self.cell_range_positions(cell_range) {
-                    Some(p) => p,
-                    None => return DocumentFragment::new(),
-                };
-                let start = if text_before {
-                    pos.min(anchor)
-                } else {
-                    cell_start
-                };
-                let end = if text_after {
-                    pos.max(anchor)
-                } else {
-                    cell_end
-                };
-                (start.min(cell_start), end.max(cell_end))
-            }
-            SelectionKind::None => return DocumentFragment::new(),
+            } => match self.cell_range_positions(cell_range) {
+                Some((cell_start, cell_end)) => {
+                    let start = if text_before {
+                        pos.min(anchor)
+                    } else {
+                        cell_start
+                    };
+                    let end = if text_after {
+                        pos.max(anchor)
+                    } else {
+                        cell_end
+                    };
+                    (start.min(cell_start), end.max(cell_end))
+                }
+                None => (anchor, anchor),
+            },
+            SelectionKind::None => (anchor, anchor),
             SelectionKind::Text => (pos, anchor),
         };
 
+        let inner = self.doc.lock();
+        if (self.read_cursor(), inner.content_version) != seen {
+            return None;
+        }
         if extract_pos == extract_anchor {
-            return DocumentFragment::new();
+            return Some(DocumentFragment::new());
         }
 
-        let inner = self.doc.lock();
         let dto = frontend::document_inspection::ExtractFragmentDto {
             position: to_i64(extract_pos),
             anchor: to_i64(extract_anchor),
         };
-        match document_inspection_commands::extract_fragment(&inner.ctx, &dto) {
-            Ok(result) => DocumentFragment::from_raw(result.fragment_data, result.plain_text),
-            Err(_) => DocumentFragment::new(),
-        }
+        Some(
+            match document_inspection_commands::extract_fragment(&inner.ctx, &dto) {
+                Ok(result) => DocumentFragment::from_raw(result.fragment_data, result.plain_text),
+                Err(_) => DocumentFragment::new(),
+            },
+        )
     }
 
     /// Insert an image at the cursor. Replaces selection if any.
@@ -828,8 +845,8 @@ impl TextCursor {
     /// Returns `None` if the cursor is not inside a table cell.
     /// When `Some`, provides the table, row, and column.
     pub fn current_table_cell(&self) -> Option<TableCellRef> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         // Find the block at cursor position
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
@@ -1648,8 +1665,8 @@ impl TextCursor {
     /// Returns the list that the block at the cursor position belongs to,
     /// or `None` if the current block is not a list item.
     pub fn current_list(&self) -> Option<crate::TextList> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -1763,8 +1780,8 @@ impl TextCursor {
 
     /// Add the block at the cursor position to a list.
     pub fn add_current_block_to_list(&self, list_id: usize) -> Result<()> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -1802,8 +1819,8 @@ impl TextCursor {
     /// Remove the block at the cursor position from its list.
     /// Returns an error if the current block is not a list item.
     pub fn remove_current_block_from_list(&self) -> Result<()> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
@@ -1830,8 +1847,8 @@ impl TextCursor {
     /// Get the character format at the cursor position. Reads the
     /// covering `FormatRun` (or image anchor) directly from the store.
     pub fn char_format(&self) -> Result<TextFormat> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
 
         // Locate the block containing the cursor.
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
@@ -1887,8 +1904,8 @@ impl TextCursor {
 
     /// Get the block format of the block containing the cursor.
     pub fn block_format(&self) -> Result<BlockFormat> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
         };
-- 
2.43.0


From fb915a517948e5fa1a7fbccc4f22ae71d0bd661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:22 +0000
Subject: [PATCH 95/95] fix: NextWord crosses any gap between two words

After 64 characters without a word it stopped where it was, even inside
a word that begins with connecting punctuation.
---
 crates/public_api/src/cursor.rs | 46 ++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index c5f6a65..7e62494 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2184,31 +2184,35 @@ impl TextCursor {
                     let max_pos = document_inspection_commands::get_document_stats(&inner.ctx)
                         .map(|s| max_cursor_position(&s))
                         .unwrap_or(0);
-                    let scan_len = max_pos.saturating_sub(pos).min(64);
-                    if scan_len == 0 {
-                        return pos;
-                    }
-                    let dto = frontend::document_inspection::GetTextAtPositionDto {
-                        position: to_i64(pos),
-                        length: to_i64(scan_len),
-                    };
-                    let ahead =
-                        document_inspection_commands::get_text_at_position(&inner.ctx, &dto)
-                            .map(|r| r.text)
-                            .unwrap_or_default();
                     drop(inner);
-                    for (i, ch) in ahead.chars().enumerate() {
-                        if ch.is_alphanumeric() || ch == '_' {
-                            // Found start of next word, find its end. A
-                            // character that is no word by itself must not
-                            // hold the cursor where it is.
-                            let (_, word_end) = self.find_word_boundaries(pos + i);
-                            if word_end > pos {
-                                return word_end;
+                    // Scan for the start of the next word, piece by piece
+                    let mut from = pos;
+                    while from < max_pos {
+                        let scan_len = (max_pos - from).min(64);
+                        let dto = frontend::document_inspection::GetTextAtPositionDto {
+                            position: to_i64(from),
+                            length: to_i64(scan_len),
+                        };
+                        let inner = self.doc.lock();
+                        let ahead =
+                            document_inspection_commands::get_text_at_position(&inner.ctx, &dto)
+                                .map(|r| r.text)
+                                .unwrap_or_default();
+                        drop(inner);
+                        for (i, ch) in ahead.chars().enumerate() {
+                            if ch.is_alphanumeric() || ch == '_' {
+                                // Found start of next word, find its end. A
+                                // character that is no word by itself must not
+                                // hold the cursor where it is.
+                                let (_, word_end) = self.find_word_boundaries(from + i);
+                                if word_end > pos {
+                                    return word_end;
+                                }
                             }
                         }
+                        from += scan_len;
                     }
-                    pos + scan_len
+                    pos.max(max_pos)
                 } else {
                     end
                 }
-- 
2.43.0

