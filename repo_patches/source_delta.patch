From 27160d6841cda046c220b299105220a2a16e0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 01/26] fix: reject artifact blob lengths that wrap the read
 cursor

---
 src/compiled_artifact.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 2c55b07..0906f1b 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -127,7 +127,7 @@ class ArtifactReader {
   }
 
   Status ReadBytesView(std::size_t n, std::string_view* out) {
-    if (pos_ + n > buf_.size()) {
+    if (n > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated blob (want ", n, " bytes, have ", buf_.size() - pos_,
                                      ")");
     }
-- 
2.43.0


From b085ca49a3a47076a4338c57493fc537ae922031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 02/26] fix: bound artifact header allocations by the blob size

---
 src/compiled_artifact.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 0906f1b..9e7568b 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -254,6 +254,11 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {
     return Status::InvalidArgument("compiled artifact: single-mode artifact with num_entries=", num_entries);
   }
+  if (num_entries > r.remaining()) {
+    // One byte per entry: bound the allocation by what the blob can hold.
+    return Status::InvalidArgument("compiled artifact: num_entries=", num_entries, " exceeds the ", r.remaining(),
+                                   " remaining bytes");
+  }
   out_header->per_entry_ret_types.resize(num_entries);
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
@@ -268,7 +273,6 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   std::uint32_t ext_count = 0;
   JF_RETURN_NOT_OK(r.ReadU32LE(&ext_count));
   out_header->extensions.clear();
-  out_header->extensions.reserve(ext_count);
   for (std::uint32_t i = 0; i < ext_count; ++i) {
     ArtifactExtension ext;
     JF_RETURN_NOT_OK(r.ReadU32LE(&ext.tag));
-- 
2.43.0


From af0c6d7376a4819fa068a4005eb65164e319dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 03/26] fix: keep the engine intact when LoadCompiled fails

---
 src/batch_exec_engine.cc | 7 +++++--
 src/exec_engine.cc       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 5484bb1..ca306c7 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -212,7 +212,7 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
 
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  auto new_core = std::make_unique<JitCore>(new_opt);
 
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
@@ -221,8 +221,11 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
     symbol_names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(new_core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  // Replace the old core only once the new one is usable: the current entry
+  // pointers are owned by the old core's JIT.
+  core_ = std::move(new_core);
   entry_func_ptrs_ = std::move(func_ptrs);
   ret_types_ = std::move(header.per_entry_ret_types);
   return Status::OK();
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b15c9eb..b6ea967 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,12 +130,15 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   // linker flags stay consistent).
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  auto new_core = std::make_unique<JitCore>(new_opt);
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(new_core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  // Replace the old core only once the new one is usable: the current entry
+  // pointer is owned by the old core's JIT.
+  core_ = std::move(new_core);
   entry_func_ptr_ = func_ptrs[0];
   // DeserializeArtifact guarantees per_entry_ret_types is non-empty
   // (num_entries >= 1, and single-mode blobs specifically have exactly
-- 
2.43.0


From afabc6033c39c9f86a6bcd5687b2e582b8269ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 04/26] fix: leave BatchExecEngine uncompiled when Compile
 fails

---
 src/batch_exec_engine.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index ca306c7..bc5455e 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -45,7 +45,13 @@ Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& ex
     nodes.emplace_back(exec_nodes[i].get());
     names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
-  return core_->BuildAndLink(nodes, names, func_registry, &entry_func_ptrs_, &ret_types_);
+  std::vector<char*> func_ptrs;
+  std::vector<ValueType> ret_types;
+  JF_RETURN_NOT_OK(core_->BuildAndLink(nodes, names, func_registry, &func_ptrs, &ret_types));
+
+  entry_func_ptrs_ = std::move(func_ptrs);
+  ret_types_ = std::move(ret_types);
+  return Status::OK();
 }
 
 Status BatchExecEngine::ExecuteAt(size_t index, void* entry_arguments, RetType* result) {
-- 
2.43.0


From aad71cf683288eb652268ade7f9171dc72b35ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 05/26] fix: report an error instead of calling null when
 executing an uncompiled engine

---
 src/exec_engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b6ea967..590ddd4 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -68,6 +68,9 @@ Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, RetType
 }
 
 Status ExecEngine::Execute(void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
@@ -78,6 +81,9 @@ Status ExecEngine::Execute(void* entry_arguments, void* result) {
 }
 
 Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
   Status ret = Status::OK();
-- 
2.43.0


From 41cd256e017aa464982cdc998dc581c7b751a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 06/26] fix: use the branching block as PHI predecessor for
 else-less when blocks

---
 src/codegen/if_block_codegen.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 9a09732..dd33b79 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -61,10 +61,6 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     llvm::BasicBlock *cond_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.cond", cur_function);
     ctx_.builder.SetInsertPoint(cond_block);
 
-    if (last_cond_block == nullptr) {
-      last_cond_block = cond_block;
-    }
-
     llvm::Value *cond_value{};
     JF_RETURN_NOT_OK(GetValue(args[cond_idx].get(), &cond_value));
     if (cond_value->getType()->isIntegerTy()) {
@@ -75,6 +71,13 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
       return Status::RuntimeError("[internal] unsupported type for if block condition (should be caught by validator)");
     }
 
+    // Evaluating the condition may have moved the insert point (short-circuit
+    // operators, if, switch), so the block that actually branches to the merge
+    // block is the current one, not cond_block.
+    if (last_cond_block == nullptr) {
+      last_cond_block = ctx_.builder.GetInsertBlock();
+    }
+
     llvm::BasicBlock *body_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.body", cur_function);
     ctx_.builder.CreateCondBr(cond_value, body_block, prev_false_block);
 
-- 
2.43.0


From c3d41a70532ec898fc981003b991f53f10298fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 07/26] fix: extend integers by the signedness of the source
 type

---
 src/codegen/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.cc b/src/codegen/codegen.cc
index 4ab4f88..a29b732 100644
--- a/src/codegen/codegen.cc
+++ b/src/codegen/codegen.cc
@@ -98,7 +98,7 @@ Status CodeGen::NumericTypeConvert(IRCodeGenContext &ctx, ValueType from, ValueT
     if (TypeHelper::IsIntegerType(to)) {
       *value =
           ctx.builder.CreateIntCast(*value, llvm::IntegerType::get(ctx.context, TypeHelper::GetBitWidthFromType(to)),
-                                    TypeHelper::IsSignedType(to));
+                                    TypeHelper::IsSignedType(from));
       return Status::OK();
     }
     if (TypeHelper::IsFloatType(to)) {
-- 
2.43.0


From 3b5ecafa280163c1879a7a3715c944b61c3e707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:25 +0000
Subject: [PATCH 08/26] fix: do not write past the bitmap when the list length
 is a multiple of 8

---
 src/function/list_comparison.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e7b2912..e485395 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -290,7 +290,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < a.len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
@@ -350,7 +352,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
-- 
2.43.0


From 18d83a90fb4c08e0db923e63beee48feaa5a9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:25 +0000
Subject: [PATCH 09/26] fix: report out-of-range group ids instead of writing
 past the result list

---
 src/function/list_group.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index c577528..39913d9 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -90,7 +90,7 @@ KList GroupKeys(KList keys, U32ListStruct group_index, uint32_t distinct, void *
       exec_ctx->arena.Allocate(sizeof(typename KList::CElementType) * distinct));
   uint32_t filled = 0;
   for (uint32_t i = 0; i < keys.len; ++i) {
-    if (group_index.data[i] == filled) {
+    if (filled < distinct && group_index.data[i] == filled) {
       result.data[filled++] = keys.data[i];
     }
   }
@@ -112,6 +112,11 @@ AccList GroupSum(VList values, U32ListStruct group_index, uint32_t distinct, voi
   result.data = reinterpret_cast<Acc *>(exec_ctx->arena.Allocate(sizeof(Acc) * distinct));
   std::memset(result.data, 0, sizeof(Acc) * distinct);
   for (uint32_t i = 0; i < values.len; ++i) {
+    if (group_index.data[i] >= distinct) {
+      exec_ctx->AddError("GroupSum: group id out of range, group id: " + std::to_string(group_index.data[i]) +
+                         ", distinct: " + std::to_string(distinct));
+      return {nullptr, 0};
+    }
     result.data[group_index.data[i]] += values.data[i];
   }
   return result;
@@ -132,6 +137,11 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
   V seed = std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
+    if (group_index.data[i] >= distinct) {
+      exec_ctx->AddError("GroupMax: group id out of range, group id: " + std::to_string(group_index.data[i]) +
+                         ", distinct: " + std::to_string(distinct));
+      return {nullptr, 0};
+    }
     result.data[group_index.data[i]] = std::max(result.data[group_index.data[i]], values.data[i]);
   }
   return result;
@@ -152,6 +162,11 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
   V seed = std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
+    if (group_index.data[i] >= distinct) {
+      exec_ctx->AddError("GroupMin: group id out of range, group id: " + std::to_string(group_index.data[i]) +
+                         ", distinct: " + std::to_string(distinct));
+      return {nullptr, 0};
+    }
     result.data[group_index.data[i]] = std::min(result.data[group_index.data[i]], values.data[i]);
   }
   return result;
@@ -172,6 +187,11 @@ F64ListStruct GroupAvg(VList values, U32ListStruct group_index, uint32_t distinc
   std::vector<uint32_t> local_counts(distinct, 0);
   for (uint32_t i = 0; i < values.len; ++i) {
     auto gid = group_index.data[i];
+    if (gid >= distinct) {
+      exec_ctx->AddError("GroupAvg: group id out of range, group id: " + std::to_string(gid) +
+                         ", distinct: " + std::to_string(distinct));
+      return {nullptr, 0};
+    }
     result.data[gid] += values.data[i];
     local_counts[gid] += 1;
   }
-- 
2.43.0


From f84ca47f0b7b1397a50c23379602cb42facd4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 10/26] fix: report an error when a concatenated or joined
 length exceeds u32

---
 src/function/list_basic.cc           | 9 +++++++++
 src/function/string_function_init.cc | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/function/list_basic.cc b/src/function/list_basic.cc
index 3f67f49..276e0df 100644
--- a/src/function/list_basic.cc
+++ b/src/function/list_basic.cc
@@ -8,6 +8,7 @@
 #include <charconv>
 #include <cmath>
 #include <cstring>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <unordered_set>
@@ -26,6 +27,10 @@ namespace {
 template <typename ListType>
 ListType ListConcat(ListType a, ListType b, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
+  if (b.len > std::numeric_limits<uint32_t>::max() - a.len) {
+    exec_ctx->AddError("ListConcat: result length exceeds the u32 range");
+    return {nullptr, 0};
+  }
   ListType result;
   result.len = a.len + b.len;
   result.data = reinterpret_cast<typename ListType::CElementType *>(
@@ -184,6 +189,10 @@ inline StringListStruct CrossJoinString(StringListStruct a, StringListStruct b,
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   StringListStruct result;
   uint64_t total_elems = static_cast<uint64_t>(a.len) * static_cast<uint64_t>(b.len);
+  if (total_elems > std::numeric_limits<uint32_t>::max()) {
+    exec_ctx->AddError("CrossJoin: result length exceeds the u32 range");
+    return {nullptr, 0};
+  }
   result.len = static_cast<uint32_t>(total_elems);
   if (total_elems == 0) {
     result.data = nullptr;
diff --git a/src/function/string_function_init.cc b/src/function/string_function_init.cc
index 86b0be7..25219a7 100644
--- a/src/function/string_function_init.cc
+++ b/src/function/string_function_init.cc
@@ -6,6 +6,7 @@
  */
 #include <charconv>
 #include <cstring>
+#include <limits>
 #include <string_view>
 #include "codegen/codegen.h"
 #include "exec_engine.h"
@@ -20,6 +21,10 @@ namespace {
 
 inline StringStruct StringConcat(StringStruct a, StringStruct b, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
+  if (b.len > std::numeric_limits<uint32_t>::max() - a.len) {
+    exec_ctx->AddError("StringConcat: result length exceeds the u32 range");
+    return {nullptr, 0};
+  }
   StringStruct result;
   result.len = a.len + b.len;
   result.data = reinterpret_cast<char *>(exec_ctx->arena.Allocate(result.len * sizeof(char)));
-- 
2.43.0


From d23930d7899e33e8984908f7cdc68de749525140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 11/26] fix: report out-of-range numeric literals as a parse
 error instead of throwing

---
 athena/token.cc | 13 ++++++++++++-
 athena/token.ll | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 7eae7a9..959f2df 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -747,6 +747,7 @@ static const flex_int16_t yy_chk[277] =
 #include <climits>
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 #line 750 "token.cc"
 #line 15 "token.ll"
 #if defined __clang__
@@ -2610,9 +2611,19 @@ jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yylex_init(&scanner);
   auto *buffer = yy_scan_string(code.c_str(), scanner);
   athena::Parser parser(scanner, *this);
-  int res = parser();
+  int res = 0;
+  bool out_of_range = false;
+  try {
+    res = parser();
+  } catch (const std::out_of_range &) {
+    // Thrown by the std::sto* conversions in the numeric literal rules.
+    out_of_range = true;
+  }
   yy_delete_buffer(buffer, scanner);
   yylex_destroy(scanner);
+  if (out_of_range) {
+    return jitfusion::Status::ParseError("numeric literal out of range");
+  }
   if (res != 0) {
     return jitfusion::Status::ParseError(parser_error_message_);
   }
diff --git a/athena/token.ll b/athena/token.ll
index 3c19b09..9064b28 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -6,6 +6,7 @@
 #include <climits>
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 %}
 
 %option prefix="athena_"
@@ -186,9 +187,19 @@ jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yylex_init(&scanner);
   auto *buffer = yy_scan_string(code.c_str(), scanner);
   athena::Parser parser(scanner, *this);
-  int res = parser();
+  int res = 0;
+  bool out_of_range = false;
+  try {
+    res = parser();
+  } catch (const std::out_of_range &) {
+    // Thrown by the std::sto* conversions in the numeric literal rules.
+    out_of_range = true;
+  }
   yy_delete_buffer(buffer, scanner);
   yylex_destroy(scanner);
+  if (out_of_range) {
+    return jitfusion::Status::ParseError("numeric literal out of range");
+  }
   if (res != 0) {
     return jitfusion::Status::ParseError(parser_error_message_);
   }
-- 
2.43.0


From 4ff3618ae7f5fd72e3843e5f29c03aa5e8928b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 12/26] fix: reject unrecognised characters instead of echoing
 and skipping them

---
 athena/token.cc | 2 ++
 athena/token.ll | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/athena/token.cc b/athena/token.cc
index 959f2df..aad6605 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -824,6 +824,8 @@ static const flex_int16_t yy_chk[277] =
 #line 94 "token.ll"
   // Code run each time a pattern is matched.
   # define YY_USER_ACTION  loc.columns (yyleng);
+  // Reached only by the default rule: a character no pattern matches.
+  # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext, yyleng))
 #line 826 "token.cc"
 #line 827 "token.cc"
 
diff --git a/athena/token.ll b/athena/token.ll
index 9064b28..d9b28d2 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -94,6 +94,8 @@ blank [ \t\r]
 %{
   // Code run each time a pattern is matched.
   # define YY_USER_ACTION  loc.columns (yyleng);
+  // Reached only by the default rule: a character no pattern matches.
+  # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext, yyleng))
 %}
 %%
 %{
-- 
2.43.0


From 6f5cb9ea7fc802bb54216fe0cded5a17893df5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 13/26] fix: do not dereference a null node after an undefined
 variable

---
 athena/ast_builder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 81a9440..7501d80 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -83,7 +83,8 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
   jitfusion::Diagnostic diag(jitfusion::Diagnostic::Level::kError, "variable '" + var_name + "' is not defined",
                              jitfusion::SourceLocation{source_code_, begin_line, begin_col, end_line, end_col});
   custom_error_message_ = diag.Render();
-  return nullptr;
+  // Never hand a null node to the grammar: later statements may clone it.
+  return std::make_unique<RefNode>(var_name);
 }
 
 void ProgramAstBuilder::AddStatement(Statement statement) {
-- 
2.43.0


From 2b47f222e0b7e18b202357f906be264fb9db7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 14/26] fix: enforce let in expression mode

---
 athena/ast_builder.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 7501d80..44b9aca 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -88,6 +88,16 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
 }
 
 void ProgramAstBuilder::AddStatement(Statement statement) {
+  // Pipelines keep their variables in the AST and are checked by the validator;
+  // expressions inline them here, so the let rules have to be enforced here too.
+  if (auto it = var2index_.find(statement.var_name);
+      build_mode_ == BuildMode::kExpression && it != var2index_.end() && custom_error_message_.empty()) {
+    if (statements_[it->second].is_const) {
+      custom_error_message_ = "cannot reassign const variable '" + statement.var_name + "'";
+    } else if (statement.is_const) {
+      custom_error_message_ = "cannot redeclare variable '" + statement.var_name + "' with let";
+    }
+  }
   statements_.emplace_back(std::move(statement));
   const auto& var_name = statements_.back().var_name;
   if (var_name.empty()) {
-- 
2.43.0


From f8614af8ac9e0c5db431f2be0e8ff6bc8aca520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 15/26] fix: skip PHI creation for names bound to void calls

---
 src/codegen/if_block_codegen.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index dd33b79..c8adfd9 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -117,6 +117,10 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
 
     for (const auto &var_name : all_modified_vars) {
       llvm::Value *original_value = *scope_stack_.Lookup(var_name);
+      if (original_value == nullptr) {
+        // A name bound to a void call carries no value, so there is nothing to merge.
+        continue;
+      }
       llvm::PHINode *phi = ctx_.builder.CreatePHI(original_value->getType(), num_incoming, var_name + ".phi");
       for (const auto &info : branch_infos) {
         auto it = info.modified.find(var_name);
-- 
2.43.0


From 7a149d7cd25df2d2414479dfb68f71d8ed2453c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 16/26] fix: take the return type of the overriding
 registration

---
 src/function_registry.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d706377..f128406 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -111,7 +111,10 @@ Status FunctionRegistry::RegisterFunc(const FunctionSignature& func_sign, Functi
     return Status::InvalidArgument("function ", func_sign.ToString(),
                                    " is already registered; pass allow_override=true to overwrite");
   }
-  signature2funcstruct_[func_sign] = std::move(func_struct);
+  // The return type lives in the key but takes no part in its equality, so an
+  // override must replace the key as well.
+  signature2funcstruct_.erase(func_sign);
+  signature2funcstruct_.emplace(func_sign, std::move(func_struct));
   return Status::OK();
 }
 
-- 
2.43.0


From b61ae4c80b2a8335a9a79a6771e15310a4acccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 17/26] fix: do not leak variable scopes between batch entries
 during validation

---
 src/jit_core.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index 4a46789..b3de8cf 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -242,8 +242,9 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
   }
 
   // Validation runs up front on caller-supplied nodes.
-  Validator validator(func_registry);
+  // Entries are independent, so each one gets a validator (and scope) of its own.
   for (auto* node : nodes) {
+    Validator validator(func_registry);
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-- 
2.43.0


From 5fb9df976f18af27e3d25013304bef6e7c33f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 18/26] fix: do not truncate the integer exponent of pow to 16
 bits

---
 src/function/math_function_init.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/function/math_function_init.cc b/src/function/math_function_init.cc
index e95bea8..d00c39e 100644
--- a/src/function/math_function_init.cc
+++ b/src/function/math_function_init.cc
@@ -86,9 +86,6 @@ llvm::Value *CallBuiltinPowIFunction(const FunctionSignature &sign,
   if (value->getType()->isIntegerTy()) {
     (void)CodeGen::NumericTypeConvert(ctx, sign.GetParamTypes().at(0), ValueType::kF64, &value);
   }
-  if (value->getType()->isDoubleTy()) {
-    (void)CodeGen::NumericTypeConvert(ctx, ValueType::kI32, ValueType::kI16, &power);
-  }
   llvm::Function *func =
       llvm::Intrinsic::getDeclaration(&ctx.module, llvm::Intrinsic::powi, {value->getType(), power->getType()});
   return ctx.builder.CreateCall(func, {value, power}, "powi");
-- 
2.43.0


From 00116642fba9e684806c30acf267bc93e850fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 19/26] fix: key the constant list cache by element bits

---
 include/function_registry.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/function_registry.h b/include/function_registry.h
index d6b8b4c..32fabe2 100644
--- a/include/function_registry.h
+++ b/include/function_registry.h
@@ -6,10 +6,13 @@
  */
 #pragma once
 
+#include <cstring>
 #include <functional>
 #include <map>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
+#include <variant>
 #include <vector>
 #include "llvm/ExecutionEngine/Orc/LLJIT.h"
 #include "llvm/IR/Attributes.h"
@@ -52,6 +55,30 @@ struct LLVMStructType {
 
 constexpr const char *kCommutative = "commutative";
 
+// Orders constant lists by their stored bits: with operator< on floating point
+// elements, 0.0 and -0.0 (or NaN and anything) would be one and the same key.
+struct ConstantListLess {
+  bool operator()(const ConstantListValueType &lhs, const ConstantListValueType &rhs) const {
+    if (lhs.index() != rhs.index()) {
+      return lhs.index() < rhs.index();
+    }
+    return std::visit(
+        [&rhs](const auto &l) {
+          using ListType = std::decay_t<decltype(l)>;
+          const auto &r = std::get<ListType>(rhs);
+          if constexpr (std::is_floating_point_v<typename ListType::value_type>) {
+            if (l.size() != r.size() || l.empty()) {
+              return l.size() < r.size();
+            }
+            return std::memcmp(l.data(), r.data(), l.size() * sizeof(typename ListType::value_type)) < 0;
+          } else {
+            return l < r;
+          }
+        },
+        lhs);
+  }
+};
+
 struct IRCodeGenContext {
   IRCodeGenContext(llvm::LLVMContext &context, llvm::Module &module, llvm::IRBuilder<> &builder,
                    llvm::Function *entry_function, LLVMStructType complex_type,
@@ -68,7 +95,7 @@ struct IRCodeGenContext {
   llvm::IRBuilder<> &builder;
   llvm::Function *entry_function;
   LLVMStructType complex_type;
-  std::map<ConstantListValueType, llvm::Value *> const_list_cache;
+  std::map<ConstantListValueType, llvm::Value *, ConstantListLess> const_list_cache;
   std::map<std::string, llvm::Constant *> const_string_cache;
   const std::unique_ptr<FunctionRegistry> &function_registry;
 };
-- 
2.43.0


From aaf76a1ad7ae651b887d95f40a1b99c9c61a684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 20/26] fix: FilterByBitmap wrote past its result when bits_cnt
 is below the number of set bits

---
 src/function/list_comparison.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e485395..89cf79f 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -383,6 +383,15 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to list len");
     return {nullptr, 0};
   }
+  // The result is sized by bits_cnt, so it has to match the bitmap before anything is written.
+  uint64_t set_bits = 0;
+  for (uint32_t i = 0; i < bitmap.len; i++) {
+    set_bits += static_cast<uint64_t>(__builtin_popcount(bitmap.data[i]));
+  }
+  if (set_bits != bits_cnt) {
+    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
+    return {nullptr, 0};
+  }
   ListType result;
   result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((bits_cnt + 1) * sizeof(T)));
   result.len = bits_cnt;
@@ -422,10 +431,6 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
       cur += b;
     }
   }
-  if (cur != bits_cnt) {
-    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
-    return {nullptr, 0};
-  }
   return result;
 }
 
-- 
2.43.0


From 1dfa1bc0d5b8464de3c16968bbbb4171b27d8e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 21/26] fix: GroupMax/GroupMin returned a finite bound for
 groups holding only infinities

---
 src/function/list_group.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index 39913d9..ac5b88c 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -134,7 +134,7 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::lowest();
+  V seed = std::numeric_limits<V>::has_infinity ? -std::numeric_limits<V>::infinity() : std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     if (group_index.data[i] >= distinct) {
@@ -159,7 +159,7 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::max();
+  V seed = std::numeric_limits<V>::has_infinity ? std::numeric_limits<V>::infinity() : std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     if (group_index.data[i] >= distinct) {
-- 
2.43.0


From 3f86215f0c2bbc5163f64ad571def1dde5ceee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 22/26] fix: bitmap sizes wrapped to zero for lists of more
 than 2^32-8 elements

---
 src/function/list_comparison.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index 89cf79f..67121a2 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -23,6 +23,9 @@ namespace jitfusion {
 
 namespace {
 
+// Bytes of a bitmap with one bit per element; (len + 7) / 8 would wrap for lens close to 2^32.
+inline uint32_t BitmapBytes(uint32_t len) { return len / 8 + (len % 8 != 0 ? 1 : 0); }
+
 template <typename ListType>
 ListType IfLarge(ListType a, typename ListType::CElementType cmp_value, typename ListType::CElementType target_value,
                  void *exec_context) {
@@ -110,7 +113,7 @@ ListType IfNotEqual(ListType a, typename ListType::CElementType cmp_value, typen
 template <typename ListType>
 ListType IfByBitmapLLRB(U8ListStruct bitmap, ListType lhs, typename ListType::CElementType rhs, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
-  uint32_t required_bitmap_len = (lhs.len + 7) / 8;
+  uint32_t required_bitmap_len = BitmapBytes(lhs.len);
   if (bitmap.len < required_bitmap_len) {
     exec_ctx->AddError("IfByBitmapLLRB: bitmap len is too short");
     return {nullptr, 0};
@@ -159,7 +162,7 @@ ListType IfByBitmapLLRB(U8ListStruct bitmap, ListType lhs, typename ListType::CE
 template <typename ListType>
 ListType IfByBitmapLBRL(U8ListStruct bitmap, typename ListType::CElementType lhs, ListType rhs, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
-  uint32_t required_bitmap_len = (rhs.len + 7) / 8;
+  uint32_t required_bitmap_len = BitmapBytes(rhs.len);
   if (bitmap.len < required_bitmap_len) {
     exec_ctx->AddError("IfByBitmapLBRL: bitmap len is too short");
     return {nullptr, 0};
@@ -211,7 +214,7 @@ ListType IfByBitmapLLRL(U8ListStruct bitmap, ListType lhs, ListType rhs, void *e
     exec_ctx->AddError("IfByBitmapLLRL: lhs and rhs len mismatch");
     return {nullptr, 0};
   }
-  uint32_t required_bitmap_len = (lhs.len + 7) / 8;
+  uint32_t required_bitmap_len = BitmapBytes(lhs.len);
   if (bitmap.len < required_bitmap_len) {
     exec_ctx->AddError("IfByBitmapLLRL: bitmap len is too short");
     return {nullptr, 0};
@@ -260,7 +263,7 @@ template <typename ListType, BinaryOPType OpType>
 U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
   U8ListStruct result;
-  result.len = (a.len + 7) / 8;
+  result.len = BitmapBytes(a.len);
   result.data = reinterpret_cast<U8ListStruct::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(U8ListStruct::CElementType)));
   if (a.len == 0) {
@@ -322,7 +325,7 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
   }
   auto len = a.len;
   U8ListStruct result;
-  result.len = (len + 7) / 8;
+  result.len = BitmapBytes(len);
   result.data = reinterpret_cast<U8ListStruct::CElementType *>(
       exec_ctx->arena.Allocate(result.len * sizeof(U8ListStruct::CElementType)));
   if (len == 0) {
@@ -379,7 +382,7 @@ template <typename ListType>
 ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void *exec_context) {
   using T = typename ListType::CElementType;
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
-  if ((a.len + 7) / 8 != bitmap.len) {
+  if (BitmapBytes(a.len) != bitmap.len) {
     exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to list len");
     return {nullptr, 0};
   }
@@ -393,7 +396,7 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     return {nullptr, 0};
   }
   ListType result;
-  result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((bits_cnt + 1) * sizeof(T)));
+  result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((static_cast<size_t>(bits_cnt) + 1) * sizeof(T)));
   result.len = bits_cnt;
 
   uint32_t cur = 0;
-- 
2.43.0


From 84e4acd79cc75cf614d3e17f0203d88e53db0312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 23/26] fix: CrossJoin/ZipConcat returned truncated strings
 when a result exceeds the u32 range

---
 src/function/list_basic.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/function/list_basic.cc b/src/function/list_basic.cc
index 276e0df..412010a 100644
--- a/src/function/list_basic.cc
+++ b/src/function/list_basic.cc
@@ -200,12 +200,20 @@ inline StringListStruct CrossJoinString(StringListStruct a, StringListStruct b,
   }
 
   uint64_t a_bytes = 0;
+  uint64_t a_max = 0;
   for (uint32_t i = 0; i < a.len; ++i) {
     a_bytes += a.data[i].len;
+    a_max = std::max<uint64_t>(a_max, a.data[i].len);
   }
   uint64_t b_bytes = 0;
+  uint64_t b_max = 0;
   for (uint32_t j = 0; j < b.len; ++j) {
     b_bytes += b.data[j].len;
+    b_max = std::max<uint64_t>(b_max, b.data[j].len);
+  }
+  if (a_max + sep.len + b_max > std::numeric_limits<uint32_t>::max()) {
+    exec_ctx->AddError("CrossJoin: result string length exceeds the u32 range");
+    return {nullptr, 0};
   }
   // Each output element contributes (|a[i]| + |sep| + |b[j]|) bytes; summed:
   //   sum_i sum_j (|a[i]| + |sep| + |b[j]|)
@@ -286,8 +294,12 @@ inline StringListStruct ZipConcatString(StringListStruct a, StringListStruct b,
   //   sum_i (|a[i]| + |sep| + |b[i]|) = (sum |a|) + (sum |b|) + n * |sep|
   uint64_t total_bytes = 0;
   for (uint32_t i = 0; i < a.len; ++i) {
-    total_bytes += a.data[i].len;
-    total_bytes += b.data[i].len;
+    uint64_t bytes = static_cast<uint64_t>(a.data[i].len) + b.data[i].len;
+    if (bytes + sep.len > std::numeric_limits<uint32_t>::max()) {
+      exec_ctx->AddError("ZipConcat: result string length exceeds the u32 range");
+      return {nullptr, 0};
+    }
+    total_bytes += bytes;
   }
   total_bytes += static_cast<uint64_t>(a.len) * sep.len;
 
-- 
2.43.0


From 931dc9cb4a633f9d64c9f84b494751ad8a72150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 24/26] fix: MurmurHash3X8632 misread lists of 2 GiB or more

---
 src/function/murmurhash3.cc | 10 +++++-----
 src/function/murmurhash3.h  |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/function/murmurhash3.cc b/src/function/murmurhash3.cc
index e63fd8b..6541781 100644
--- a/src/function/murmurhash3.cc
+++ b/src/function/murmurhash3.cc
@@ -47,7 +47,7 @@ inline uint64_t rotl64(uint64_t x, int8_t r) { return (x << r) | (x >> (64 - r))
 // handle aligned reads, do the conversion here
 namespace jitfusion {
 
-FORCE_INLINE uint32_t getblock32(const uint32_t *p, int i) { return p[i]; }
+FORCE_INLINE uint32_t getblock32(const uint32_t *p, ptrdiff_t i) { return p[i]; }
 
 FORCE_INLINE uint64_t getblock64(const uint64_t *p, int i) { return p[i]; }
 
@@ -78,9 +78,9 @@ FORCE_INLINE uint64_t fmix64(uint64_t k) {
 
 //-----------------------------------------------------------------------------
 
-void MurmurHash3_x86_32(const void *key, int len, uint32_t seed, void *out) {
+void MurmurHash3_x86_32(const void *key, size_t len, uint32_t seed, void *out) {
   const uint8_t *data = (const uint8_t *)key;
-  const int nblocks = len / 4;
+  const ptrdiff_t nblocks = static_cast<ptrdiff_t>(len / 4);
 
   uint32_t h1 = seed;
 
@@ -92,7 +92,7 @@ void MurmurHash3_x86_32(const void *key, int len, uint32_t seed, void *out) {
 
   const uint32_t *blocks = (const uint32_t *)(data + nblocks * 4);
 
-  for (int i = -nblocks; i; i++) {
+  for (ptrdiff_t i = -nblocks; i; i++) {
     uint32_t k1 = getblock32(blocks, i);
 
     k1 *= c1;
@@ -127,7 +127,7 @@ void MurmurHash3_x86_32(const void *key, int len, uint32_t seed, void *out) {
   //----------
   // finalization
 
-  h1 ^= len;
+  h1 ^= static_cast<uint32_t>(len);
 
   h1 = fmix32(h1);
 
diff --git a/src/function/murmurhash3.h b/src/function/murmurhash3.h
index 3124d50..f3e8c15 100644
--- a/src/function/murmurhash3.h
+++ b/src/function/murmurhash3.h
@@ -19,13 +19,14 @@ typedef unsigned __int64 uint64_t;
 
 #else  // defined(_MSC_VER)
 
+#  include <stddef.h>
 #  include <stdint.h>
 
 #endif  // !defined(_MSC_VER)
 
 //-----------------------------------------------------------------------------
 namespace jitfusion {
-void MurmurHash3_x86_32(const void* key, int len, uint32_t seed, void* out);
+void MurmurHash3_x86_32(const void* key, size_t len, uint32_t seed, void* out);
 
 void MurmurHash3_x86_128(const void* key, int len, uint32_t seed, void* out);
 
-- 
2.43.0


From 0a8848cb6b46e43b2e130d25784e7d0959d583c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 25/26] fix: an engine keeps its configured floating-point mode
 after LoadCompiled

---
 src/batch_exec_engine.cc |  6 +++---
 src/exec_engine.cc       | 11 ++++-------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index bc5455e..7bba8e2 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -216,9 +216,9 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kBatch));
 
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  auto new_core = std::make_unique<JitCore>(new_opt);
+  // Keep the engine's own options: a later Compile() must use the FP mode
+  // this engine was configured with.
+  auto new_core = std::make_unique<JitCore>(core_->GetOption());
 
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index 590ddd4..f5d5535 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,13 +130,10 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kSingle));
 
-  // Rebuild a JitCore that reflects the FP mode actually baked into the
-  // artifact (FP mode affects codegen flags, but the object bytes are
-  // already codegen'd — we only need the LLJIT to match so that any
-  // linker flags stay consistent).
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  auto new_core = std::make_unique<JitCore>(new_opt);
+  // The object bytes are already codegen'd in the FP mode recorded in the
+  // artifact. The core keeps the engine's own options: a later Compile()
+  // must use the FP mode this engine was configured with.
+  auto new_core = std::make_unique<JitCore>(core_->GetOption());
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-- 
2.43.0


From cf7d148d65e5157afb0611503a30f1891e78ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 26/26] fix: track lines and columns inside multi-line comments
 and string literals

A block comment ending on a later line dropped the columns after its last
newline, and a newline inside a string literal was not counted at all, so every
later diagnostic on those lines pointed at the wrong place.
---
 athena/token.cc | 162 ++++++++++++++++++++++++------------------------
 athena/token.ll |  18 +++---
 2 files changed, 92 insertions(+), 88 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index aad6605..2a09c58 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -819,15 +819,22 @@ static const flex_int16_t yy_chk[277] =
 #if defined GCC_VERSION && 900 <= GCC_VERSION
 # pragma GCC diagnostic ignored "-Wuseless-cast"
 #endif
-#line 821 "token.cc"
+#line 822 "token.cc"
 #define YY_NO_INPUT 1
 #line 94 "token.ll"
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
+  # define YY_USER_ACTION              \
+    for (int i = 0; i < yyleng; ++i) {   \
+      if (yytext[i] == '\n') {           \
+        loc.lines(1);                    \
+      } else {                           \
+        loc.columns(1);                  \
+      }                                  \
+    }
   // Reached only by the default rule: a character no pattern matches.
   # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext, yyleng))
-#line 826 "token.cc"
-#line 827 "token.cc"
+#line 836 "token.cc"
+#line 837 "token.cc"
 
 #define INITIAL 0
 
@@ -1085,16 +1092,16 @@ YY_DECL
 		}
 
 	{
-#line 97 "token.ll"
+#line 106 "token.ll"
 
 
-#line 100 "token.ll"
+#line 109 "token.ll"
   // A handy shortcut to the location held by the Parser.
   athena::location& loc = builder.GetLocation();
   // Code run each time yylex is called.
   loc.step ();
 
-#line 1094 "token.cc"
+#line 1104 "token.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1149,333 +1156,328 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 105 "token.ll"
+#line 114 "token.ll"
 loc.step ();
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 106 "token.ll"
-loc.lines (yyleng); loc.step ();
+#line 115 "token.ll"
+loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 108 "token.ll"
+#line 117 "token.ll"
 loc.step ();
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 109 "token.ll"
-{
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+#line 118 "token.ll"
+loc.step ();
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "token.ll"
+#line 120 "token.ll"
 return  athena::Parser::make_LET                         (loc);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "token.ll"
+#line 121 "token.ll"
 return  athena::Parser::make_WHEN                        (loc);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "token.ll"
+#line 122 "token.ll"
 return  athena::Parser::make_IF                          (loc);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "token.ll"
+#line 123 "token.ll"
 return  athena::Parser::make_ELIF                        (loc);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "token.ll"
+#line 124 "token.ll"
 return  athena::Parser::make_ELSE                        (loc);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "token.ll"
+#line 125 "token.ll"
 return  athena::Parser::make_SWITCH                      (loc);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "token.ll"
+#line 126 "token.ll"
 return  athena::Parser::make_LBRACE                      (loc);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "token.ll"
+#line 127 "token.ll"
 return  athena::Parser::make_RBRACE                      (loc);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "token.ll"
+#line 128 "token.ll"
 return  athena::Parser::make_SEMI                        (loc);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 126 "token.ll"
+#line 130 "token.ll"
 return  athena::Parser::make_IN                          (loc);      
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 127 "token.ll"
+#line 131 "token.ll"
 return  athena::Parser::make_NOT                         (loc);     
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 128 "token.ll"
+#line 132 "token.ll"
 return  athena::Parser::make_AND                         (loc);     
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 129 "token.ll"
+#line 133 "token.ll"
 return  athena::Parser::make_OR                          (loc);      
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 130 "token.ll"
+#line 134 "token.ll"
 return  athena::Parser::make_TRUE                        (loc);      
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 131 "token.ll"
+#line 135 "token.ll"
 return  athena::Parser::make_FALSE                       (loc);      
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 132 "token.ll"
+#line 136 "token.ll"
 return  athena::Parser::make_MINUS                       (loc);   
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 133 "token.ll"
+#line 137 "token.ll"
 return  athena::Parser::make_PLUS                        (loc);    
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 134 "token.ll"
+#line 138 "token.ll"
 return  athena::Parser::make_STAR                        (loc);    
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 135 "token.ll"
+#line 139 "token.ll"
 return  athena::Parser::make_SLASH                       (loc);   
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 136 "token.ll"
+#line 140 "token.ll"
 return  athena::Parser::make_LPAREN                      (loc);  
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 137 "token.ll"
+#line 141 "token.ll"
 return  athena::Parser::make_RPAREN                      (loc);  
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 138 "token.ll"
+#line 142 "token.ll"
 return  athena::Parser::make_MODOLO                      (loc);  
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 139 "token.ll"
+#line 143 "token.ll"
 return  athena::Parser::make_BITWISE_OR                  (loc);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 140 "token.ll"
+#line 144 "token.ll"
 return  athena::Parser::make_BITWISE_XOR                 (loc);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 141 "token.ll"
+#line 145 "token.ll"
 return  athena::Parser::make_BITWISE_AND                 (loc);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 142 "token.ll"
+#line 146 "token.ll"
 return  athena::Parser::make_BITWISE_NOT                 (loc);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 143 "token.ll"
+#line 147 "token.ll"
 return  athena::Parser::make_EQUAL                       (loc);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 144 "token.ll"
+#line 148 "token.ll"
 return  athena::Parser::make_ASSIGNMENT                  (loc);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 145 "token.ll"
+#line 149 "token.ll"
 return  athena::Parser::make_NOT_EQUAL                   (loc);
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 146 "token.ll"
+#line 150 "token.ll"
 return  athena::Parser::make_LESS_THAN                   (loc);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 147 "token.ll"
+#line 151 "token.ll"
 return  athena::Parser::make_LESS_THAN_OR_EQUAL_TO       (loc);
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 148 "token.ll"
+#line 152 "token.ll"
 return  athena::Parser::make_GREATER_THAN                (loc);
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 149 "token.ll"
+#line 153 "token.ll"
 return  athena::Parser::make_GREATER_THAN_OR_EQUAL_TO    (loc);
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 150 "token.ll"
+#line 154 "token.ll"
 return  athena::Parser::make_COMMA                       (loc);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 151 "token.ll"
+#line 155 "token.ll"
 return  athena::Parser::make_LBRACKET                    (loc);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 152 "token.ll"
+#line 156 "token.ll"
 return  athena::Parser::make_RBRACKET                    (loc);
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 153 "token.ll"
+#line 157 "token.ll"
 return  athena::Parser::make_BITWISE_LEFT                (loc);
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 154 "token.ll"
+#line 158 "token.ll"
 return  athena::Parser::make_BITWISE_RIGHT               (loc);
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 156 "token.ll"
+#line 160 "token.ll"
 return  athena::Parser::make_ENTRY_ARG   (loc);
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 157 "token.ll"
+#line 161 "token.ll"
 return  athena::Parser::make_EXEC_CTX    (loc);
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 158 "token.ll"
+#line 162 "token.ll"
 return  athena::Parser::make_OUTPUT        (loc);
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 160 "token.ll"
+#line 164 "token.ll"
 return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 162 "token.ll"
+#line 166 "token.ll"
 return  athena::Parser::make_I32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 163 "token.ll"
+#line 167 "token.ll"
 return  athena::Parser::make_U8 (std::stoull(yytext), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 164 "token.ll"
+#line 168 "token.ll"
 return  athena::Parser::make_U16 (std::stoull(yytext), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 165 "token.ll"
+#line 169 "token.ll"
 return  athena::Parser::make_U32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 166 "token.ll"
+#line 170 "token.ll"
 return  athena::Parser::make_U64 (std::stoull(yytext), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 167 "token.ll"
+#line 171 "token.ll"
 return  athena::Parser::make_I8 (std::stoull(yytext), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 168 "token.ll"
+#line 172 "token.ll"
 return  athena::Parser::make_I16 (std::stoull(yytext), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 169 "token.ll"
+#line 173 "token.ll"
 return  athena::Parser::make_I32 (std::stoull(yytext), loc);
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 170 "token.ll"
+#line 174 "token.ll"
 return  athena::Parser::make_I64 (std::stoull(yytext), loc);
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 172 "token.ll"
+#line 176 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 173 "token.ll"
+#line 177 "token.ll"
 return  athena::Parser::make_F32 (std::stof(yytext), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 174 "token.ll"
+#line 178 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 175 "token.ll"
+#line 179 "token.ll"
 return  athena::Parser::make_F32 (std::stof(yytext), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 176 "token.ll"
+#line 180 "token.ll"
 return  athena::Parser::make_F64 (std::stod(yytext), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
 YY_RULE_SETUP
-#line 179 "token.ll"
+#line 183 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 62:
 /* rule 62 can match eol */
 YY_RULE_SETUP
-#line 180 "token.ll"
+#line 184 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 182 "token.ll"
+#line 186 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 183 "token.ll"
+#line 187 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1475 "token.cc"
+#line 1480 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2605,7 +2607,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 183 "token.ll"
+#line 187 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
diff --git a/athena/token.ll b/athena/token.ll
index d9b28d2..580b177 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -93,7 +93,14 @@ blank [ \t\r]
 
 %{
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
+  # define YY_USER_ACTION              \
+    for (int i = 0; i < yyleng; ++i) {   \
+      if (yytext[i] == '\n') {           \
+        loc.lines(1);                    \
+      } else {                           \
+        loc.columns(1);                  \
+      }                                  \
+    }
   // Reached only by the default rule: a character no pattern matches.
   # define ECHO throw athena::Parser::syntax_error(loc, "invalid character: " + std::string(yytext, yyleng))
 %}
@@ -105,15 +112,10 @@ blank [ \t\r]
   loc.step ();
 %}
 {blank}+   loc.step ();
-\n+        loc.lines (yyleng); loc.step ();
+\n+        loc.step ();
 
 "//"[^\n]*                    loc.step ();
-"/*"([^*]|\*+[^*/])*\*+"/"   {
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+"/*"([^*]|\*+[^*/])*\*+"/"   loc.step ();
 
 "let"         return  athena::Parser::make_LET                         (loc);
 "when"        return  athena::Parser::make_WHEN                        (loc);
-- 
2.43.0

